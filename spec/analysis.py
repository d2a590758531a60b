"""Reference: product inspection and comparison (C27)."""
import os
import bokeh
import bokeh.io
import bokeh.plotting
import matplotlib.pyplot as plt
import numpy as np
import pyproj
from bokeh.models import ColumnDataSource, Circle
from bokeh.tile_providers import STAMEN_TERRAIN
import ipywidgets as widgets
from IPython.display import display
from ipywidgets import interact, fixed
from matplotlib.backends.backend_pdf import PdfPages
from matplotlib.collections import LineCollection, PolyCollection
from netCDF4 import Dataset, num2date
from dedop.ui.figurewriter import FigureWriter
from dedop.ui.inspect import L1bProductInspector, L1bProductInspectorPlots
from dedop.ui.compare import L1bProductComparator, L1bProductComparatorPlots


def shown(self, name):
    if self._interactive:
        plt.show()
    else:
        self.savefig(name)


def given(value, default):
    return default if value is None else value


@spec('dedop/ui/figurewriter.py:FigureWriter.__init__', props='C27')
def figure_writer(self, output_path, output_format):
    if not output_path:
        raise ValueError('no path')
    if output_format:
        kind = output_format.lower()
    else:
        ending = os.path.splitext(output_path)[1]
        kind = ending[1:].lower() if len(ending) > 1 else 'dir'
    if kind != 'pdf' and kind != 'dir':
        raise ValueError('format')
    self._pdf_pages = None
    self._output_format = kind
    self._output_path = output_path
    if kind == 'pdf':
        base, ending = os.path.splitext(os.path.basename(output_path))
        if not base:
            raise ValueError('no base name')
        if ending and ending not in ['.pdf', '.PDF']:
            raise ValueError('ending')
        self._output_path = os.path.join(os.path.dirname(output_path), base + (ending if ending else '.pdf'))


@spec('dedop/ui/figurewriter.py:FigureWriter.output_path', props='C27')
def writer_output_path(self):
    return self._output_path


@spec('dedop/ui/figurewriter.py:FigureWriter.output_format', props='C27')
def writer_output_format(self):
    return self._output_format


@spec('dedop/ui/figurewriter.py:FigureWriter.savefig', props='C27')
def writer_savefig(self, file_name=None):
    if self._output_format == 'pdf':
        path = self._output_path
    else:
        if not file_name:
            raise ValueError('no name')
        path = os.path.join(self._output_path, file_name)
    folder = os.path.dirname(path)
    if folder and not os.path.exists(folder):
        os.makedirs(folder, exist_ok=True)
    if self._output_format == 'pdf':
        if not self._pdf_pages:
            self._pdf_pages = PdfPages(path)
        plt.savefig(self._pdf_pages, format='pdf')
    else:
        plt.savefig(path, format=None)


@spec('dedop/ui/figurewriter.py:FigureWriter.close', props='C27 C04')
def writer_close(self):
    if self._pdf_pages:
        self._pdf_pages.close()
        self._pdf_pages = None


@spec('dedop/ui/inspect.py:inspect_l1b_product', props='C27')
def inspect_product(product_file_path, output_path=None, output_format=None):
    if output_path:
        writer = FigureWriter(output_path, output_format)
    else:
        bokeh.io.output_notebook(hide_banner=True)
        writer = None
    return L1bProductInspector(product_file_path, writer)


@spec('dedop/ui/compare.py:compare_l1b_products', props='C27')
def compare_products(product_file_path_1, product_file_path_2, output_path=None, output_format=None):
    if output_path:
        writer = FigureWriter(output_path, output_format)
    else:
        bokeh.io.output_notebook(hide_banner=True)
        writer = None
    return L1bProductComparator(product_file_path_1, product_file_path_2, writer)


@spec('dedop/ui/inspect.py:L1bProductInspector.__init__', props='C27')
def inspector_init(self, product_file_path, figure_writer):
    if not product_file_path:
        raise ValueError('no path')
    self._plot = L1bProductInspectorPlots(self, figure_writer)
    self._file_path = product_file_path
    dataset = Dataset(product_file_path)
    self._dataset = dataset
    self.dim_names = sorted(list(dataset.dimensions.keys()))
    self.var_names = sorted(list(dataset.variables))
    if 'time_l1bs_echo_sar_ku' in self.var_names:
        kind = 'l1bs'
    elif 'time_l1b_echo_sar_ku' in self.var_names:
        kind = 'l1b'
    else:
        raise ValueError('not a product')
    self.dim_name_to_size = {}
    for name, dim in dataset.dimensions.items():
        self.dim_name_to_size[name] = dim.size
    self.dim_names_to_var_names = {}
    for v in dataset.variables:
        dims = tuple(dataset[v].dimensions)
        if dims in self.dim_names_to_var_names:
            self.dim_names_to_var_names[dims].add(v)
        else:
            self.dim_names_to_var_names[dims] = {v}
    self.attributes = {name: dataset.getncattr(name) for name in dataset.ncattrs()}
    self.lat = dataset['lat_%s_echo_sar_ku' % kind][:]
    self.lon = dataset['lon_%s_echo_sar_ku' % kind][:]
    self.lat_0 = self.lat.mean()
    self.lon_0 = self.lon.mean()
    self.lat_range = self.lat.min(), self.lat.max()
    self.lon_range = self.lon.min(), self.lon.max()
    time_var = dataset['time_%s_echo_sar_ku' % kind]
    time = time_var[:]
    self.time = num2date(time, time_var.units, calendar=time_var.calendar)
    self.time_0 = num2date(time.mean(), time_var.units, calendar=time_var.calendar)
    self.time_range = self.time.min(), self.time.max()
    counts = dataset['i2q2_meas_ku_%s_echo_sar_ku' % kind][:]
    scaling = dataset['scale_factor_ku_%s_echo_sar_ku' % kind][:]
    self._waveform = counts * scaling.reshape(scaling.shape + (1,))
    self.waveform_range = self.waveform.min(), self.waveform.max()
    self.num_times = counts.shape[0]
    self.num_samples = counts.shape[1]
    self.echo_sample_ind = np.arange(0, self.num_samples)


@spec('dedop/ui/inspect.py:L1bProductInspector.file_path', props='C27')
def inspector_file_path(self):
    return self._file_path


@spec('dedop/ui/inspect.py:L1bProductInspector.plot', props='C27')
def inspector_plot(self):
    return self._plot


@spec('dedop/ui/inspect.py:L1bProductInspector.dataset', props='C27')
def inspector_dataset(self):
    return self._dataset


@spec('dedop/ui/inspect.py:L1bProductInspector.waveform', props='C27')
def inspector_waveform(self):
    return self._waveform


@spec('dedop/ui/inspect.py:L1bProductInspector.close', props='C27 C04', opaque='L1bProductInspectorPlots.close')
def inspector_close(self):
    self._dataset.close()
    self._plot.close()


@spec('dedop/ui/inspect.py:L1bProductInspectorPlots.__init__', props='C27')
def plots_init(self, inspector, figure_writer):
    self._inspector = inspector
    self._figure_writer = figure_writer
    self._interactive = figure_writer is None


@spec('dedop/ui/inspect.py:L1bProductInspectorPlots.locations', props='C27')
def plots_locations(self, color='blue'):
    mercator = pyproj.Proj(init='epsg:3857')
    geographic = pyproj.Proj(init='epsg:4326')
    x, y = pyproj.transform(geographic, mercator, self._inspector.lon, self._inspector.lat)
    source = ColumnDataSource(data=dict(x=x, y=y))
    circle = Circle(x='x', y='y', size=6, fill_color=color, fill_alpha=0.5, line_color=None)
    fig = bokeh.plotting.figure(x_range=(x.min(), x.max()), y_range=(y.min(), y.max()), toolbar_location='above')
    fig.axis.visible = False
    fig.add_tile(STAMEN_TERRAIN)
    fig.title.text = 'L1B Locations'
    fig.add_glyph(source, circle)
    if self._interactive:
        bokeh.io.show(fig)
    elif self._figure_writer.output_format == "dir":
        os.makedirs(self._figure_writer.output_path, exist_ok=True)
        bokeh.io.save(fig, os.path.join(self._figure_writer.output_path, 'fig-locations.html'), title='L1B Locations')


@spec('dedop/ui/inspect.py:L1bProductInspectorPlots.waveform_im', props='C27')
def waveform_im(self, vmin=None, vmax=None, cmap='jet'):
    low, high = self._inspector.waveform_range
    plt.figure(figsize=(10, 10))
    plt.imshow(self._inspector.waveform, interpolation='nearest', aspect='auto', vmin=given(vmin, low), vmax=given(vmax, high), cmap=cmap)
    plt.xlabel('Echo Sample Index')
    plt.ylabel('Time Index')
    plt.title('Waveform')
    plt.colorbar(orientation='vertical')
    shown(self, "fig-waveform-im.png")


@spec('dedop/ui/inspect.py:L1bProductInspectorPlots.waveform_3d_surf', props='C27')
def waveform_3d_surf(self, zmin=0, zmax=None, cmap='jet'):
    self._waveform_3d('surf', zmin, zmax, 1, cmap)


@spec('dedop/ui/inspect.py:L1bProductInspectorPlots.waveform_3d_poly', props='C27')
def waveform_3d_poly(self, zmin=0, zmax=None, alpha=0.5, cmap='jet'):
    self._waveform_3d('poly', zmin, zmax, alpha, cmap)


@spec('dedop/ui/inspect.py:L1bProductInspectorPlots.waveform_3d_line', props='C27')
def waveform_3d_line(self, zmin=0, zmax=None, alpha=0.5, cmap='jet'):
    self._waveform_3d('line', zmin, zmax, alpha, cmap)


@spec('dedop/ui/inspect.py:L1bProductInspectorPlots._waveform_3d', props='C27')
def waveform_3d(self, fig_type, zmin, zmax, alpha, cmap):
    fig = plt.figure(figsize=(10, 10))
    ax = fig.gca(projection='3d')
    times = self._inspector.num_times
    samples = self._inspector.num_samples
    if fig_type == 'surf':
        x, y = np.meshgrid(np.arange(0, samples), np.arange(0, times))
        surf = ax.plot_surface(x, y, self._inspector.waveform, rstride=3, cstride=3, cmap=cmap, shade=True, linewidth=0, antialiased=False)
        fig.colorbar(surf, shrink=0.5, aspect=5)
    else:
        lines = []
        for i in range(times):
            line = np.ndarray(shape=(samples, 2), dtype=np.float64)
            line[:, 0] = np.arange(0, samples)
            line[:, 1] = self._inspector.waveform[i]
            lines.append(line)
        widths = [0.5] * times
        if fig_type == 'poly':
            collection = PolyCollection(lines, cmap=cmap, linewidths=widths, edgecolors=((0.2, 0.2, 1., 0.7),) * times,
                                        facecolors=((1., 1., 1., 0.5),) * times)
        else:
            collection = LineCollection(lines, cmap=cmap, linewidths=widths, colors=((0.2, 0.2, 1., 0.7),) * times)
        collection.set_alpha(alpha)
        ax.add_collection3d(collection, zs=np.arange(0, times), zdir='y')
    low, high = self._inspector.waveform_range
    ax.set_xlabel('Echo Sample Index')
    ax.set_xlim3d(0, samples - 1)
    ax.set_ylabel('Time Index')
    ax.set_ylim3d(0, times - 1)
    ax.set_zlabel('Waveform')
    ax.set_zlim3d(given(zmin, low), given(zmax, high))
    shown(self, "fig-waveform-3d-%s.png" % fig_type)


@spec('dedop/ui/inspect.py:L1bProductInspectorPlots.waveform_hist', props='C27')
def waveform_hist(self, vmin=None, vmax=None, bins=128, log=False, color='green'):
    low = given(vmin, self._inspector.waveform_range[0])
    high = given(vmax, self._inspector.waveform_range[1])
    if low == high:
        high = low + 1
    plt.figure(figsize=(12, 6))
    plt.hist(self._inspector.waveform.flatten(), range=(low, high), bins=bins, log=log, facecolor=color, alpha=1, normed=True)
    plt.xlabel('Waveform')
    plt.ylabel('Counts')
    plt.title('Waveform Histogram')
    plt.grid(True)
    shown(self, "fig-waveform-hist.png")


@spec('dedop/ui/inspect.py:L1bProductInspectorPlots.waveform_line', props='C27', opaque='L1bProductInspectorPlots._plot_waveform_line')
def waveform_line(self, ind=None, ref_ind=None):
    if ind is None and self._interactive:
        interact(self._plot_waveform_line, ind=(0, self._inspector.num_times - 1), ref_ind=fixed(ref_ind))
    else:
        self._plot_waveform_line(ind=ind if ind else 0, ref_ind=ref_ind)


@spec('dedop/ui/inspect.py:L1bProductInspectorPlots._plot_waveform_line', props='C27')
def plot_waveform_line(self, ind, ref_ind=None):
    plt.figure(figsize=(12, 6))
    plt.plot(self._inspector.echo_sample_ind, self._inspector.waveform[ind], 'b-')
    plt.xlabel('Echo Sample Index')
    plt.ylabel('Waveform')
    plt.title('Waveform at #%s' % ind)
    plt.grid(True)
    if ref_ind is not None:
        plt.plot(self._inspector.echo_sample_ind, self._inspector.waveform[ref_ind], 'r-', label='ref')
        plt.legend(['#%s' % ind, '#%s' % ref_ind])
    shown(self, "fig-waveform-x-%d.png" % ind)


@spec('dedop/ui/inspect.py:L1bProductInspectorPlots.im', props='C27', opaque='L1bProductInspectorPlots._plot_im')
def plots_im(self, z=None, zmin=None, zmax=None, cmap='jet'):
    if z is not None:
        self._plot_im(z_name=z, zmin=zmin, zmax=zmax, cmap=cmap)
    elif self._interactive:
        options = list()
        for dim_names, var_names in self._inspector.dim_names_to_var_names.items():
            nonempty = all([self._inspector.dim_name_to_size[dim] > 0 for dim in dim_names])
            if nonempty and len(dim_names) == 2:
                options.extend(var_names)
        interact(self._plot_im, z_name=sorted(options), zmin=fixed(zmin), zmax=fixed(zmax), cmap=fixed(cmap))
    else:
        raise ValueError('no name')


@spec('dedop/ui/inspect.py:L1bProductInspectorPlots._plot_im', props='C27')
def plot_im(self, z_name, zmin=None, zmax=None, cmap='jet'):
    if z_name not in self._inspector.dataset.variables:
        return
    var = self._inspector.dataset[z_name]
    if len(var.shape) != 2:
        return
    data = var[:]
    low = given(zmin, data.min())
    high = given(zmax, data.max())
    plt.figure(figsize=(10, 10))
    plt.imshow(data, interpolation='nearest', aspect='auto', vmin=low, vmax=high, cmap=cmap)
    plt.xlabel('%s (index)' % var.dimensions[1])
    plt.ylabel('%s (index)' % var.dimensions[0])
    plt.title('%s (%s)' % (z_name, var.units if hasattr(var, 'units') else '?'))
    plt.colorbar(orientation='vertical')
    shown(self, 'fig-%s.png' % z_name)


@spec('dedop/ui/inspect.py:L1bProductInspectorPlots._plot_line', props='C27')
def plot_line(self, x_name, y_name):
    y_var = self._inspector.dataset[y_name]
    y_units = y_var.units if hasattr(y_var, 'units') else '?'
    y_data = y_var[:]
    if x_name == 'index':
        x_units = '-'
        x_data = np.arange(0, len(y_data))
    else:
        x_var = self._inspector.dataset[x_name]
        x_units = x_var.units if hasattr(x_var, 'units') else '?'
        x_data = x_var[:]
    plt.figure(figsize=(12, 6))
    plt.plot(x_data, y_data, 'b-')
    plt.xlabel('%s (%s)' % (x_name, x_units))
    plt.ylabel('%s (%s)' % (y_name, y_units))
    plt.grid(True)
    shown(self, 'fig-%s-over-%s.png' % (x_name, y_name))


@spec('dedop/ui/inspect.py:L1bProductInspectorPlots._plot_im_line', props='C27')
def plot_im_line(self, z_name, zmin=None, zmax=None, xind=None, yind=None, cmap='jet'):
    assert z_name
    if z_name not in self._inspector.dataset.variables:
        return
    var = self._inspector.dataset[z_name]
    if len(var.shape) != 2:
        return
    data = var[:]
    low = given(zmin, data.min())
    high = given(zmax, data.max())
    x_title = '%s (index)' % var.dimensions[1]
    y_title = '%s (index)' % var.dimensions[0]
    z_title = '%s (%s)' % (z_name, var.units if hasattr(var, 'units') else '?')
    ax1, ax2, ax3, ax4 = None, None, None, None
    has_xind = xind is not None
    has_yind = yind is not None
    if has_xind and has_yind:
        fig, ((ax1, ax2), (ax3, ax4)) = plt.subplots(2, 2, sharex='col', sharey='row', figsize=(12, 6))
    elif has_yind:
        fig, (ax1, ax3) = plt.subplots(2, sharex='col', figsize=(12, 6))
    elif has_xind:
        fig, (ax3, ax4) = plt.subplots(1, 2, sharey='row', figsize=(12, 6))
    else:
        fig, ax3 = plt.subplots(1, figsize=(12, 6))
    if ax1:
        row = var[yind]
        ax1.plot(np.arange(0, len(row)), row)
        ax1.grid(True)
        ax1.set_ylabel(z_title)
    if ax4:
        column = var[:, xind]
        ax4.plot(column, np.arange(0, len(column)))
        ax4.grid(True)
        ax4.set_xlabel(z_title)
    if ax2:
        ax2.remove()
    im = ax3.imshow(data, interpolation='nearest', aspect='auto', vmin=low, vmax=high, cmap=cmap)
    if has_xind:
        ax3.axvline(x=xind)
    if has_yind:
        ax3.axhline(y=yind)
    ax3.set_xlabel(x_title)
    ax3.set_ylabel(y_title)
    if not ax1 and not ax4:
        ax3.set_title(z_title)
        fig.colorbar(im, orientation='vertical')
    if self._interactive:
        plt.show()
    elif has_xind and has_yind:
        self.savefig('fig-%s-x-%s-y-%s.png' % (z_name, xind, yind))
    elif has_xind:
        self.savefig('fig-%s-x-%s.png' % (z_name, xind))
    elif has_yind:
        self.savefig('fig-%s-y-%s.png' % (z_name, yind))
    else:
        self.savefig('fig-%s.png' % z_name)


@spec('dedop/ui/inspect.py:L1bProductInspectorPlots.savefig', props='C27', opaque='FigureWriter.savefig')
def plots_savefig(self, filename):
    return self._figure_writer.savefig(filename)


@spec('dedop/ui/inspect.py:L1bProductInspectorPlots.close', props='C27 C04', opaque='FigureWriter.close')
def plots_close(self):
    if self._figure_writer:
        self._figure_writer.close()


@spec('dedop/ui/compare.py:L1bProductComparator.__init__', props='C27')
def comparator_init(self, product_file_path_1, product_file_path_2, figure_writer):
    if not product_file_path_1:
        raise ValueError('no path')
    if not product_file_path_2:
        raise ValueError('no path')
    first = L1bProductInspector(product_file_path_1, figure_writer)
    second = L1bProductInspector(product_file_path_2, figure_writer)
    if first.waveform.shape != second.waveform.shape:
        raise ValueError('shapes')
    self._product_inspector_1 = first
    self._product_inspector_2 = second
    self._plot = L1bProductComparatorPlots(self, figure_writer)
    delta = first.waveform - second.waveform
    self._waveforms_delta = delta
    self._waveforms_delta_range = delta.min(), delta.max()


@spec('dedop/ui/compare.py:L1bProductComparator.p1', props='C27')
def comparator_p1(self):
    return self._product_inspector_1


@spec('dedop/ui/compare.py:L1bProductComparator.p2', props='C27')
def comparator_p2(self):
    return self._product_inspector_2


@spec('dedop/ui/compare.py:L1bProductComparator.file_paths', props='C27')
def comparator_file_paths(self):
    return self.p1.file_path, self.p2.file_path


@spec('dedop/ui/compare.py:L1bProductComparator.datasets', props='C27')
def comparator_datasets(self):
    return self.p1.dataset, self.p2.dataset


@spec('dedop/ui/compare.py:L1bProductComparator.waveforms', props='C27')
def comparator_waveforms(self):
    return self.p1.waveform, self.p2.waveform


@spec('dedop/ui/compare.py:L1bProductComparator.waveforms_delta', props='C27')
def comparator_delta(self):
    return self._waveforms_delta


@spec('dedop/ui/compare.py:L1bProductComparator.waveforms_delta_range', props='C27')
def comparator_delta_range(self):
    return self._waveforms_delta_range


@spec('dedop/ui/compare.py:L1bProductComparator.plot', props='C27')
def comparator_plot(self):
    return self._plot


@spec('dedop/ui/compare.py:L1bProductComparator.close', props='C27 C04', opaque='L1bProductInspector.close L1bProductComparatorPlots.close')
def comparator_close(self):
    self._product_inspector_1.close()
    self._product_inspector_2.close()
    self._plot.close()


@spec('dedop/ui/compare.py:L1bProductComparatorPlots.__init__', props='C27')
def cplots_init(self, product_comparator, figure_writer):
    self._plt = plt
    self._comparator = product_comparator
    self._interactive = figure_writer is None
    self._figure_writer = figure_writer


@spec('dedop/ui/compare.py:L1bProductComparatorPlots.locations', props='C27')
def cplots_locations(self, color1='blue', color2='red'):
    mercator = pyproj.Proj(init='epsg:3857')
    geographic = pyproj.Proj(init='epsg:4326')
    x1, y1 = pyproj.transform(geographic, mercator, self._comparator.p1.lon, self._comparator.p1.lat)
    x2, y2 = pyproj.transform(geographic, mercator, self._comparator.p2.lon, self._comparator.p2.lat)
    source1 = ColumnDataSource(data=dict(x=x1, y=y1))
    source2 = ColumnDataSource(data=dict(x=x2, y=y2))
    circle1 = Circle(x='x', y='y', size=6, fill_color=color1, fill_alpha=0.5, line_color=None)
    circle2 = Circle(x='x', y='y', size=6, fill_color=color2, fill_alpha=0.5, line_color=None)
    fig = bokeh.plotting.figure(x_range=(min(x1.min(), x2.min()), max(x1.max(), x2.max())),
                                y_range=(min(y1.min(), y2.min()), max(y1.max(), y2.max())), toolbar_location='above')
    fig.axis.visible = False
    fig.add_tile(STAMEN_TERRAIN)
    fig.title.text = "L1B Footprints"
    fig.add_glyph(source1, circle1)
    fig.add_glyph(source2, circle2)
    if self._interactive:
        bokeh.io.show(fig)
    elif self._figure_writer.output_format == "dir":
        os.makedirs(self._figure_writer.output_path, exist_ok=True)
        bokeh.io.save(fig, os.path.join(self._figure_writer.output_path, 'fig-locations.html'), title='L1B Locations')


@spec('dedop/ui/compare.py:L1bProductComparatorPlots.waveforms_delta_im', props='C27')
def waveforms_delta_im(self, vmin=None, vmax=None, cmap='RdBu_r'):
    low, high = self._comparator.waveforms_delta_range
    plt.figure(figsize=(10, 10))
    plt.imshow(self._comparator.waveforms_delta, interpolation='nearest', aspect='auto', vmin=given(vmin, low), vmax=given(vmax, high), cmap=cmap)
    plt.xlabel('Echo Sample Index')
    plt.ylabel('Time Index')
    plt.title('Waveform 1, Waveform 2 Delta')
    plt.colorbar(orientation='vertical')
    shown(self, "fig-waveform_delta-im.png")


@spec('dedop/ui/compare.py:L1bProductComparatorPlots.waveforms_hist', props='C27')
def waveforms_hist(self, vmin=None, vmax=None, bins=128, log=False, color1='blue', color2='red', alpha=0.5):
    low = given(vmin, self._comparator.waveforms_delta_range[0])
    high = given(vmax, self._comparator.waveforms_delta_range[1])
    if low == high:
        high = low + 1
    plt.figure(figsize=(12, 6))
    plt.hist(self._comparator.p1.waveform.flatten(), range=(low, high), bins=bins, log=log, facecolor=color1, alpha=alpha,
             normed=True, label='Waveform 1')
    plt.hist(self._comparator.p2.waveform.flatten(), range=(low, high), bins=bins, log=log, facecolor=color2, alpha=alpha,
             normed=True, label='Waveform 2')
    plt.xlabel('Waveform')
    plt.ylabel('Counts')
    plt.title('Waveforms Histogram')
    plt.grid(True)
    shown(self, "fig-waveforms-hist.png")


@spec('dedop/ui/compare.py:L1bProductComparatorPlots.waveforms_delta_hist', props='C27')
def waveforms_delta_hist(self, vmin=None, vmax=None, bins=128, log=False, color='green'):
    low = given(vmin, self._comparator.waveforms_delta_range[0])
    high = given(vmax, self._comparator.waveforms_delta_range[1])
    if low == high:
        high = low + 1
    plt.figure(figsize=(12, 6))
    plt.hist(self._comparator.waveforms_delta.flatten(), range=(low, high), bins=bins, log=log, facecolor=color, alpha=1, normed=True)
    plt.xlabel('Waveforms Delta')
    plt.ylabel('Counts')
    plt.title('Waveforms Delta Histogram')
    plt.grid(True)
    shown(self, "fig-waveforms_delta-hist.png")


@spec('dedop/ui/compare.py:L1bProductComparatorPlots.waveforms_scatter', props='C27')
def waveforms_scatter(self, vmin=None, vmax=None):
    low = given(vmin, self._comparator.waveforms_delta_range[0])
    high = given(vmax, self._comparator.waveforms_delta_range[1])
    if low == high:
        high = low + 1
    plt.figure(figsize=(12, 6))
    plt.axis([low, high, low, high])
    plt.scatter(self._comparator.p1.waveform, self._comparator.p2.waveform, alpha=0.3, edgecolors='none')
    plt.xlabel('Waveform 1')
    plt.ylabel('Waveform 2')
    plt.title('Waveforms Scatter Plot')
    plt.grid(True)
    shown(self, "fig-waveforms-scatter.png")


@spec('dedop/ui/compare.py:L1bProductComparatorPlots.waveforms_hexbin', props='C27')
def waveforms_hexbin(self, vmin=None, vmax=None, cmap='Blues', log=True):
    low = given(vmin, self._comparator.waveforms_delta_range[0])
    high = given(vmax, self._comparator.waveforms_delta_range[1])
    if low == high:
        high = low + 1
    plt.figure(figsize=(12, 6))
    plt.hexbin(self._comparator.p1.waveform.flatten(), self._comparator.p2.waveform.flatten(), cmap=cmap, bins='log' if log else None)
    plt.axis([low, high, low, high])
    plt.xlabel('Waveform 1')
    plt.ylabel('Waveform 2')
    plt.title('Waveforms Delta Hexagon Binning')
    plt.grid(True)
    bar = plt.colorbar()
    bar.set_label('log10(Counts)' if log else 'Counts')
    shown(self, "fig-waveforms-hexbin.png")


@spec('dedop/ui/compare.py:L1bProductComparatorPlots.savefig', props='C27', opaque='FigureWriter.savefig')
def cplots_savefig(self, filename):
    return self._figure_writer.savefig(filename)


@spec('dedop/ui/compare.py:L1bProductComparatorPlots.close', props='C27 C04', opaque='FigureWriter.close')
def cplots_close(self):
    if self._figure_writer:
        self._figure_writer.close()


@spec('dedop/ui/inspect.py:L1bProductInspectorPlots.im_line', props='C27', opaque='L1bProductInspectorPlots._plot_im_line')
def plots_im_line(self, z=None, zmin=None, zmax=None, xind=None, yind=None, cmap='jet'):
    # with everything given (or nobody to ask) it is plotted as asked for
    if not self._interactive:
        if not z:
            raise ValueError('z must be given')
        self._plot_im_line(z, zmin=zmin, zmax=zmax, xind=xind, yind=yind, cmap=cmap)
    elif z and xind is not None and yind is not None:
        self._plot_im_line(z, zmin=zmin, zmax=zmax, xind=xind, yind=yind, cmap=cmap)
    else:
        # what is missing is asked for, what is given is fixed
        ask_x = fixed(xind) if xind is not None else widgets.IntSlider(min=0, max=10, step=1, description='X:')
        ask_y = fixed(yind) if yind is not None else widgets.IntSlider(min=0, max=10, step=1, description='Y:')
        if z:
            ask_z = fixed(z)
        else:
            names = []
            for dims, variables in self._inspector.dim_names_to_var_names.items():
                if all([self._inspector.dim_name_to_size[dim] > 0 for dim in dims]) and len(dims) == 2:
                    names.extend(variables)
            names = sorted(names)
            ask_z = widgets.Dropdown(options=names, value=names[0], description='Var:')

            def limits(change):
                variable = self._inspector.dataset[ask_z.value]
                if xind is None:
                    ask_x.max = variable.shape[1] - 1
                if yind is None:
                    ask_y.max = variable.shape[0] - 1

            ask_z.observe(limits, names='value')
        interact(self._plot_im_line, z_name=ask_z, xind=ask_x, yind=ask_y,
                 zmin=fixed(zmin), zmax=fixed(zmax), cmap=fixed(cmap))


@spec('dedop/ui/inspect.py:L1bProductInspectorPlots.line', props='C27', opaque='L1bProductInspectorPlots._plot_line')
def plots_line(self, x=None, y=None, sel_dim=False):
    if x and y:
        self._plot_line(x, y)
    elif not self._interactive:
        raise ValueError('x and y must be given')
    else:
        dims, names = set(), []
        for dim_names, var_names in self._inspector.dim_names_to_var_names.items():
            if len(dim_names) == 1 and len(var_names) > 1:
                if self._inspector.dim_name_to_size[dim_names[0]] > 0:
                    dims.add(dim_names[0])
                    names.extend(var_names)
        dims = sorted(dims)
        names = sorted(names)
        if sel_dim:
            of_dim = sorted(list(self._inspector.dim_names_to_var_names[(dims[0],)]))
            x_names = ['index'] + of_dim
            ask_dim = widgets.Dropdown(options=dims, value=dims[0], description='Dim:')
            ask_x = widgets.Dropdown(options=x_names, value=x if x and x in x_names else x_names[0], description='X:')
            ask_y = widgets.Dropdown(options=of_dim, value=y if y and y in of_dim else of_dim[0], description='Y:')
            display(ask_dim)

            def dim_changed(change):
                ask_y.options = sorted(list(self._inspector.dim_names_to_var_names[(ask_dim.value,)]))
                ask_x.options = ['index'] + ask_y.options
                ask_y.value = ask_y.options[0]
                ask_x.value = ask_x.options[0]

            def shown(change):
                display()

            ask_dim.observe(dim_changed, names='value')
            ask_x.observe(shown, names='value')
            ask_y.observe(shown, names='value')
            interact(self._plot_line, x_name=ask_x, y_name=ask_y)
        else:
            x_names = ['index'] + names
            ask_x = widgets.Dropdown(options=x_names, value=x_names[0], description='X:')
            ask_y = widgets.Dropdown(options=names, value=names[0], description='Y:')
            ask_x.value = x if x and x in x_names else x_names[0]
            ask_y.value = y if y and y in names else names[0]

            def x_changed(change):
                if ask_x.value == 'index':
                    ask_y.options = names
                else:
                    ask_y.options = sorted(
                        self._inspector.dim_names_to_var_names[self._inspector.dataset[ask_x.value].dimensions])
                ask_y.value = ask_y.options[0]

            ask_x.observe(x_changed, names='value')
            interact(self._plot_line, x_name=ask_x, y_name=ask_y)
