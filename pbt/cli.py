"""Runs of the whole toolkit in this process, as from the command line."""

import io
import logging
import os
import runpy
import sys

import yaml

LOGGER = logging.getLogger('mt_logger')


class Records(logging.Handler):
    def __init__(self):
        logging.Handler.__init__(self)
        self.records = []

    def emit(self, record):
        self.records.append((record.levelno, record.getMessage()))

    def warnings(self):
        return [m for level, m in self.records if level >= logging.WARNING]


class Outcome(object):
    """error: the exception that ended the run or None; log: Records."""

    def __init__(self, error, log, out, err):
        self.error = error
        self.log = log
        self.out = out
        self.err = err


def main_py():
    import mtoolkit
    tree = os.path.dirname(os.path.dirname(os.path.abspath(mtoolkit.__file__)))
    return os.path.join(tree, 'main.py')


def run(*args):
    """main.py with these arguments."""
    saved = sys.argv, sys.stdout, sys.stderr, LOGGER.level, LOGGER.handlers[:]
    out, err = io.StringIO(), io.StringIO()
    log = Records()
    LOGGER.addHandler(log)
    error = None
    sys.argv, sys.stdout, sys.stderr = ['main.py'] + list(args), out, err
    try:
        runpy.run_path(main_py(), run_name='__main__')
    except (Exception, SystemExit) as e:     # noqa: BLE001
        error = e
    finally:
        sys.argv, sys.stdout, sys.stderr = saved[:3]
        for h in LOGGER.handlers:
            if h not in saved[4] and h is not log:
                h.close()
        LOGGER.handlers[:] = saved[4]
        LOGGER.setLevel(saved[3])
    return Outcome(error, log, out.getvalue(), err.getvalue())


def write_config(path, config):
    with open(path, 'w') as f:
        yaml.safe_dump(config, f)


def config(**changes):
    """A complete configuration."""
    c = {'eq_catalog_file': 'eq.csv', 'pprocessing_result_file': 'pre.csv',
         'completeness_table_file': 'table.csv', 'source_model_file': 'sm.xml',
         'result_file': 'result.xml', 'apply_processing_jobs': True,
         'preprocessing_jobs': None, 'processing_jobs': None,
         'GardnerKnopoff': {'time_dist_windows': 'GardnerKnopoff',
                            'foreshock_time_window': 0},
         'Afteran': {'time_dist_windows': 'GardnerKnopoff', 'time_window': 60.0},
         'Stepp': {'time_window': 5, 'magnitude_windows': 0.2,
                   'sensitivity': 0.1, 'increment_lock': True},
         'Recurrence': {'magnitude_window': 0.2,
                        'recurrence_algorithm': 'Weichert',
                        'reference_magnitude': 4.0, 'time_window': 1.0},
         'MaximumMagnitude': {'maxim_mag_algorithm': 'Kijko_Npg',
                              'iteration_tolerance': 1e-5,
                              'maximum_iterations': 1000, 'neq': 100,
                              'number_samples': 51, 'number_bootstraps': 100}}
    c.update(changes)
    return c
