"""Reference: progress monitors, stream redirection, program configuration (C18, C11, C25, C07)."""
import datetime as dt
import os
import pkgutil
import signal
import sys
import time
from io import StringIO
from dedop.model.exception import ProcessorException
from dedop.util.config import get_config, get_config_value, read_python_config, write_default_config_file
from dedop.util.monitor import ChildMonitor, Monitor
from dedop.util.time import UTC, UTC_BASE


# ---------------------------------------------------------------- monitor

@spec('dedop/util/monitor.py:Monitor.starting', props='C18', opaque='start done', onraise=True)
def starting(self, label, total_work=None):
    self.start(label, total_work=total_work)
    try:
        yield self
    finally:
        self.done()


@spec('dedop/util/monitor.py:Monitor.child', props='C18')
def child(self, work):
    return ChildMonitor(self, work)


@spec('dedop/util/monitor.py:Monitor.cancel', props='C18')
def monitor_cancel(self):
    pass


@spec('dedop/util/monitor.py:Monitor.is_cancelled', props='C18')
def monitor_is_cancelled(self):
    return False


@spec('dedop/util/monitor.py:_NullMonitor.start', props='C18')
def null_start(self, label, total_work=None):
    pass


@spec('dedop/util/monitor.py:_NullMonitor.progress', props='C18')
def null_progress(self, work=None, msg=None):
    pass


@spec('dedop/util/monitor.py:_NullMonitor.done', props='C18')
def null_done(self):
    pass


@spec('dedop/util/monitor.py:_NullMonitor.child', props='C18')
def null_child(self, partial_work):
    return Monitor.NULL


@spec('dedop/util/monitor.py:ChildMonitor.__init__', props='C18')
def child_init(self, parent_monitor, partial_work):
    self._parent_monitor = parent_monitor
    self._partial_work = partial_work
    self._total_work = None
    self._label = None


@spec('dedop/util/monitor.py:ChildMonitor.start', props='C18')
def child_start(self, label, total_work=None):
    if not label:
        raise ValueError('label')
    self._label = label
    self._total_work = total_work
    self._parent_monitor.progress(work=None if total_work is None else 0.0, msg=label)


@spec('dedop/util/monitor.py:ChildMonitor.progress', props='C18')
def child_progress(self, work=None, msg=None):
    share = None
    if work is not None and self._total_work:
        share = work / self._total_work * self._partial_work
    text = None
    if msg is not None:
        text = '%s: %s' % (self._label, msg)
    self._parent_monitor.progress(work=share, msg=text)


@spec('dedop/util/monitor.py:ChildMonitor.done', props='C18')
def child_done(self):
    self._parent_monitor.progress(work=None if self._total_work is None else 0.0, msg=self._label)


@spec('dedop/util/monitor.py:ChildMonitor.cancel', props='C18')
def child_cancel(self):
    self._parent_monitor.cancel()


@spec('dedop/util/monitor.py:ChildMonitor.is_cancelled', props='C18')
def child_is_cancelled(self):
    return self._parent_monitor.is_cancelled()


@spec('dedop/util/monitor.py:ConsoleMonitor.__init__', props='C18')
def console_init(self, stay_in_line=False, progress_bar_size=None):
    self._stay_in_line = stay_in_line
    self._progress_bar_size = progress_bar_size
    self._label = None
    self._worked = None
    self._total_work = None
    self._percentage = None
    self._cancelled = False
    self._last_line_len = None
    self._old_ctrl_c_handler = False
    self._msg = None


@spec('dedop/util/monitor.py:ConsoleMonitor.start', props='C18', opaque='_report_progress', onraise=True, faults=True)
def console_start(self, label, total_work=None):
    if not label:
        raise ValueError('label')
    self._label = label
    self._worked = 0.0
    self._percentage = None
    self._total_work = total_work
    self._report_progress(msg='started')
    self._old_ctrl_c_handler = signal.signal(signal.SIGINT, self._on_ctrl_c)


@spec('dedop/util/monitor.py:ConsoleMonitor.progress', props='C18', opaque='_report_progress')
def console_progress(self, work=None, msg=None):
    percentage = None
    if work is not None:
        self._worked = self._worked + work
        if self._worked is not None and self._total_work:
            percentage = round(100.0 * self._worked / self._total_work)
    if percentage != self._percentage or msg != self._msg:
        self._report_progress(percentage, msg)
    self._percentage = percentage
    self._msg = msg


@spec('dedop/util/monitor.py:ConsoleMonitor.done', props='C18', opaque='_report_progress', onraise=True, faults=True)
def console_done(self):
    signal.signal(signal.SIGINT, self._old_ctrl_c_handler)
    if self._cancelled:
        text = 'cancelled'
    elif self._msg is None:
        text = 'done'
    else:
        text = self._msg
    self._report_progress(msg=text)
    if self._stay_in_line:
        sys.stdout.write('\n')


@spec('dedop/util/monitor.py:ConsoleMonitor._report_progress', props='C18')
def report_progress(self, percentage=None, msg=None):
    if percentage is None:
        line = '%s: %s' % (self._label, msg) if msg else '%s: progress' % self._label
    else:
        bar = ''
        if self._progress_bar_size:
            count = int(self._progress_bar_size * percentage / 100 + 0.5)
            bar = '[%s%s] ' % ('#' * count, '-' * (self._progress_bar_size - count))
        number = '%3d%%' % percentage
        line = '%s: %s%s %s' % (self._label, bar, number, msg) if msg else '%s: %s%s' % (self._label, bar, number)
    if self._stay_in_line:
        sys.stdout.write('\r')
        sys.stdout.write(line)
        if self._last_line_len and self._last_line_len - len(line) > 0:
            sys.stdout.write(' ' * (self._last_line_len - len(line)))
        self._last_line_len = len(line)
    else:
        sys.stdout.write(line)
        sys.stdout.write('\n')
    sys.stdout.flush()


@spec('dedop/util/monitor.py:ConsoleMonitor.cancel', props='C18')
def console_cancel(self):
    self._cancelled = True


@spec('dedop/util/monitor.py:ConsoleMonitor.is_cancelled', props='C18')
def console_is_cancelled(self):
    return self._cancelled


@spec('dedop/util/monitor.py:ConsoleMonitor._on_ctrl_c', props='C18')
def console_on_ctrl_c(self, signal, frame):
    self._cancelled = True


@spec('dedop/util/fetchstd.py:fetch_std_streams', props='C18', onraise=True)
def fetch_std_streams():
    sys.stdout.flush()
    sys.stderr.flush()
    out = sys.stdout
    err = sys.stderr
    sys.stdout = StringIO()
    sys.stderr = StringIO()
    try:
        yield sys.stdout, sys.stderr
    finally:
        try:
            sys.stdout.flush()
            sys.stderr.flush()
        finally:
            sys.stdout = out
            sys.stderr = err


@spec('dedop/model/processor.py:DummyProcessor.__init__', props='C18')
def dummy_init(self, name=None, cnf_file=None, cst_file=None, chd_file=None, output_dir=None, skip_l1bs=False):
    self.name = name
    self.cnf_file = cnf_file
    self.cst_file = cst_file
    self.chd_file = chd_file
    self.output_dir = output_dir
    self.skip_l1bs = skip_l1bs


@spec('dedop/model/processor.py:DummyProcessor.process', props='C18')
def dummy_process(self, l1a_file, monitor=Monitor.NULL):
    if 'ERR' in os.path.basename(l1a_file).upper():
        raise ProcessorException('failed')
    with monitor.starting('processing "%s"' % self.name, total_work=101 if self.skip_l1bs else 102):
        for rec in range(100):
            if monitor.is_cancelled():
                return
            time.sleep(1.0 / 100)
            monitor.progress(work=1)
        os.makedirs(self.output_dir, exist_ok=True)
        base = os.path.splitext(os.path.basename(l1a_file))[0]
        if base.startswith('L1A'):
            base = base[3:]
        if not self.skip_l1bs:
            with open(os.path.join(self.output_dir, 'L1BS_%s_%s.nc' % (base, self.name)), 'wb'):
                monitor.progress(work=1, msg='writing L1BS')
        with open(os.path.join(self.output_dir, 'L1B_%s_%s.nc' % (base, self.name)), 'wb'):
            monitor.progress(work=1, msg='writing L1B')


# ---------------------------------------------------------------- program configuration

@spec('dedop/util/config.py:get_config_path', props='C25', pure='get_config_value')
def get_config_path(name, default=None):
    value = get_config_value(name, default=default)
    if value is None:
        return None
    return os.path.expanduser(str(value))


@spec('dedop/util/config.py:get_config_value', props='C25', opaque='get_config')
def config_value(name, default=None):
    if not name:
        raise ValueError('name')
    return get_config().get(name, default)


@spec('dedop/util/config.py:read_python_config', props='C25', onraise=True)
def read_config(file):
    fp = open(file, 'r') if isinstance(file, str) else file
    try:
        config = {}
        exec(compile(fp.read(), file if isinstance(file, str) else '<NO FILE>', 'exec'), None, config)
        return config
    finally:
        if fp is not file:
            fp.close()


@spec('dedop/util/config.py:write_default_config_file', props='C25')
def write_default_config():
    path = os.path.expanduser(os.path.join('~', '.dedop', 'config.py'))
    folder = os.path.dirname(path)
    if folder and not os.path.exists(folder):
        os.mkdir(folder)
    with open(path, 'w') as fp:
        fp.write(pkgutil.get_data('dedop.util', 'config-template.py').decode('utf-8'))
    return path


# ---------------------------------------------------------------- time

@spec('dedop/util/time.py:iso_format', props='C07')
def iso_format(utc_secs=None):
    if utc_secs is None:
        return dt.datetime.now(tz=UTC).isoformat()
    return (UTC_BASE + dt.timedelta(seconds=utc_secs)).isoformat()
