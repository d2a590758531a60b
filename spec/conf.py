"""Reference: parameter files and their delivery to the processing steps (C11, C12)."""
import json
import warnings
import numpy as np
from dedop.conf import CharacterisationFile, ConstantsFile, ConfigurationFile
from dedop.conf.auxiliary_errors import (IncompatibleAuxiliaryFileError, MissingParameterError, ParameterTypeError,
                                         UnknownParameterWarning)
from dedop.conf.auxiliary_parameter import AuxiliaryParameter
from dedop.util.parameter import Parameter
from dedop.proc.sar.algorithms import *
from dedop.proc.sar.cal import *

R = 'dedop/conf/auxiliary_file_reader.py:AuxiliaryFileReader.'


@spec('dedop/conf/auxiliary_file_reader.py:AuxiliaryFileReader.__init__', props='C11 C12', opaque='_read_file')
def reader_init(self, filename=None, **kwargs):
    self._data = {}
    if filename is not None:
        self._data = self._read_file(filename)
    self._data.update(kwargs)


@spec('dedop/conf/auxiliary_file_reader.py:AuxiliaryFileReader._read_file', props='C11 C12',
      opaque='get_version', pure='_get_parameters')
def read_file(cls, filename):
    """version first, then every value under its own name; unknown names are announced"""
    data = {}
    with open(filename) as f:
        version = cls.get_version(f)
        if version != cls._fileversion:
            raise IncompatibleAuxiliaryFileError(cls._id, cls._fileversion, version)
        for name, param in json.load(f).items():
            if name == "__metainf__":
                continue
            if name not in cls._get_parameters():
                warnings.warn(UnknownParameterWarning(name, cls._id))
            data[name] = param['value']
    return data


@spec('dedop/conf/auxiliary_file_reader.py:AuxiliaryFileReader.get_version', props='C12 C14')
def get_version(file):
    data = json.load(file)
    file.seek(0)
    if "__metainf__" in data:
        return data["__metainf__"]["version"]
    return -1


@spec('dedop/conf/auxiliary_file_reader.py:AuxiliaryFileReader._get_parameters', props='C11 C12')
def get_parameters(cls):
    return (p.name for _, p in vars(cls).items() if isinstance(p, AuxiliaryParameter))


@spec('dedop/conf/auxiliary_file_reader.py:AuxiliaryFileReader.__getitem__', props='C11 C12', pure='_get_parameters')
def getitem(self, item):
    if item in self._get_parameters() and item in self._data:
        return self._data[item]
    raise MissingParameterError(item, self._id)


@spec('dedop/conf/auxiliary_parameter.py:AuxiliaryParameter.__init__', props='C11 C12', skip='self.__doc__')
def param_init(self, parameter_name, doc_string=None, param_type=None, cast_type=None, optional=False,
               default_value=None):
    self.name = parameter_name
    self.type = param_type
    if cast_type is not None:
        self.cast = cast_type
    else:
        self.cast = param_type
    self.optional = optional or (default_value is not None)
    self.default = default_value
    self._cache = {}


@spec('dedop/conf/auxiliary_parameter.py:AuxiliaryParameter.__get__', props='C11 C12', pure='_retreive_value')
def param_get(self, instance, instance_type=None):
    if instance is None:
        return self
    if instance in self._cache:
        return self._cache[instance]
    value = self._retreive_value(instance)
    if self.cast is not None and value is not None:
        value = self.cast(value)
    if self.type is not None and not isinstance(value, self.type):
        raise ParameterTypeError(self.name, self.type, type(value))
    self._cache[instance] = value
    return value


@spec('dedop/conf/auxiliary_parameter.py:AuxiliaryParameter._retreive_value', props='C11 C12')
def param_retrieve(self, instance):
    try:
        return instance[self.name]
    except MissingParameterError:
        if not self.optional:
            raise
        return self.default


@spec('dedop/conf/auxiliary_parameter.py:AuxiliaryParameterArray.__init__', props='C11 C12', skip='self.__doc__')
def array_init(self, parameter_name, doc_string=None, param_type=None, shape=None, optional=False,
               default_value=None):
    self.name = parameter_name
    self.type = param_type
    self.shape = shape
    self.optional = optional or (default_value is not None)
    self.default = default_value
    self.cast = param_type


@spec('dedop/conf/auxiliary_parameter.py:AuxiliaryParameterArray.__get__', props='C11 C12', pure='_retreive_value')
def array_get(self, instance, instance_type=None):
    if instance is None:
        return self
    value = self._retreive_value(instance)
    if value is not None:
        value = np.asarray(value, dtype=self.type)
        if self.shape is not None:
            value = np.reshape(value, self.shape)
    return value


@spec('dedop/conf/characterization.py:CharacterisationFile.__init__', props='C11')
def chd_init(self, cst, filename=None, **kwargs):
    self._wv_length_ku = kwargs.pop('wv_length_ku_chd', None)
    self._chirp_slope_ku = kwargs.pop('chirp_slope_ku_chd', None)
    self.cst = cst
    self._data = {}
    if filename is not None:
        self._data = self._read_file(filename)
    self._data.update(kwargs)


@spec('dedop/conf/characterization.py:CharacterisationFile.pri_sar', props='C11')
def pri_sar(self):
    return 1 / self.prf_sar


@spec('dedop/conf/characterization.py:CharacterisationFile.bri_sar', props='C11')
def bri_sar(self):
    return 1 / self.brf_sar


@spec('dedop/conf/characterization.py:CharacterisationFile.chirp_slope_ku', props='C11', scratch='_chirp_slope_ku')
def chirp_slope_ku(self):
    if self._chirp_slope_ku is None:
        self._chirp_slope_ku = self.bw_ku / self.pulse_length
    return self._chirp_slope_ku


@spec('dedop/conf/characterization.py:CharacterisationFile.wv_length_ku', props='C11')
def wv_length_ku(self):
    if self._wv_length_ku is None:
        self._wv_length_ku = self.cst.c / self.freq_ku
    return self._wv_length_ku


@spec('dedop/conf/characterization.py:CharacterisationFile.t0_nom', props='C11')
def t0_nom(self):
    return 1 / (self.uso_freq_nom * self.alt_freq_multiplier)


@spec('dedop/conf/configuration.py:ConfigurationFile.__init__', props='C11', opaque='_read_file')
def cnf_init(self, filename=None, **kwargs):
    self._data = {}
    if filename is not None:
        self._data = self._read_file(filename)
    self._data.update(kwargs)


@spec('dedop/conf/constants.py:ConstantsFile.__init__', props='C11', opaque='_read_file')
def cst_init(self, filename=None, **kwargs):
    self._data = {}
    if filename is not None:
        self._data = self._read_file(filename)
    self._data.update(kwargs)


# ---------------------------------------------------------------- delivery to the steps

@spec('dedop/proc/sar/base_algorithm.py:BaseAlgorithm.__init__', props='C11 C13', opaque='collect_parameter_values')
def algorithm_init(self, chd, cst, cnf):
    self.chd = chd
    self.cst = cst
    self.cnf = cnf
    self.collect_parameter_values()


@spec('dedop/proc/sar/base_algorithm.py:BaseAlgorithm.collect_parameter_values', props='C11 C12 C13',
      pure='get_parameters')
def collect(self):
    for p in Parameter.get_parameters(self.__class__).values():
        if p.value_set is not None:
            setattr(self, p.name, p.value_set)
        try:
            setattr(self, p.name, getattr(self.cnf, p.name))
        except MissingParameterError:
            if p.default_value is not None:
                setattr(self, p.name, p.default_value)


@spec('dedop/proc/sar/processor.py:L1BProcessor.__init__', props='C11 C02 C05 C09 C12',
      focus={'C02': '_surfaces _packets surfaces_count beam_angles_list_size_prev beam_angles_trend_prev',
             'C05': 'min_surfs _surfaces surfaces_count', 'C09': 'gap_threshold bri_sar'})
def processor_init(self, name, cnf_file, cst_file, chd_file, out_path, skip_l1bs=True):
    if not name or not cnf_file or not cst_file or not chd_file or out_path is None:
        raise ValueError
    self.cst = ConstantsFile(cst_file)
    self.chd = CharacterisationFile(self.cst, chd_file)
    self.cnf = ConfigurationFile(cnf_file)
    self.skip_l1bs = skip_l1bs
    self.out_path = out_path
    self.name = name
    self.l1a_file = None
    self._gap_monitor = None
    self._surfaces = []
    self._packets = []
    self.surfaces_count = 0
    self.min_surfs = 80
    self.beam_angles_list_size_prev = -1
    self.beam_angles_trend_prev = -1
    self.surface_locations_algorithm = SurfaceLocationAlgorithm(self.chd, self.cst, self.cnf)
    self.beam_angles_algorithm = BeamAnglesAlgorithm(self.chd, self.cst, self.cnf)
    self.azimuth_processing_algorithm = AzimuthProcessingAlgorithm(self.chd, self.cst, self.cnf)
    self.stack_gathering_algorithm = StackGatheringAlgorithm(self.chd, self.cst, self.cnf)
    self.geometry_corrections_algorithm = GeometryCorrectionsAlgorithm(self.chd, self.cst, self.cnf)
    self.range_compression_algorithm = RangeCompressionAlgorithm(self.chd, self.cst, self.cnf)
    self.stack_masking_algorithm = StackMaskingAlgorithm(self.chd, self.cst, self.cnf)
    self.multilooking_algorithm = MultilookingAlgorithm(self.chd, self.cst, self.cnf)
    self.sigma_zero_algorithm = Sigma0ScalingFactorAlgorithm(self.chd, self.cst, self.cnf)
    self.cal1_algorithm = CAL1Algorithm(self.chd, self.cst, self.cnf)
    self.cal2_algorithm = CAL2Algorithm(self.chd, self.cst, self.cnf)
    self.gap_threshold = 1.5 * self.chd.bri_sar


@spec('dedop/util/parameter.py:Parameter.__init__', props='C11 C12')
def parameter_init(self, name, default_value=None, data_type=None, description=None, value_set=None, units=None,
                   position=0):
    self._name = name
    if type(name) != str or len(name) == 0:
        raise ValueError('name must not be None or empty')
    if data_type:
        self._data_type = data_type
    elif default_value is not None:
        self._data_type = type(default_value)
    else:
        raise ValueError('data_type must not be None')
    if not isinstance(self._data_type, type):
        raise ValueError('data_type must be an instance of type')
    self.default_value = default_value
    self.description = description
    self.value_set = value_set
    self.is_bound_to_value_set = value_set
    self.units = units
    self.position = position


@spec('dedop/util/parameter.py:Parameter.name', props='C11')
def parameter_name(self):
    return self._name


@spec('dedop/util/parameter.py:Parameter.__call__', props='C11')
def parameter_call(self, annotated_class):
    if 'parameters' not in annotated_class.__dict__:
        annotated_class.parameters = dict()
    annotated_class.parameters[self.name] = self
    return annotated_class


@spec('dedop/util/parameter.py:Parameter.get_parameters', props='C11', opaque='_collect_parameters_from_class')
def parameter_all(clazz):
    return Parameter._collect_parameters_from_class(clazz, dict())


@spec('dedop/util/parameter.py:Parameter._collect_parameters_from_class', props='C11',
      opaque='_collect_parameters_from_class')
def parameter_collect(clazz, parameters):
    if clazz != object:
        for base in clazz.__bases__:
            parameters = Parameter._collect_parameters_from_class(base, parameters)
        if hasattr(clazz, 'parameters'):
            parameters.update(clazz.parameters)
    return parameters
