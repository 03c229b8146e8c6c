"""Run the command line program inside this process."""
import io
import logging
import os
from . import core, real   # noqa: F401 - sets up the environment
from toron.cli import main as _main


class _Input(io.TextIOWrapper):
    """Like the standard input of a process (a text layer over bytes)."""
    def __init__(self, text):
        super().__init__(io.BytesIO((text or '').encode('utf-8')), encoding='utf-8')
        self.tty = text is None

    def isatty(self):
        return self.tty


class _Output(io.TextIOWrapper):
    def __init__(self):
        self.raw_bytes = io.BytesIO()
        super().__init__(self.raw_bytes, encoding='utf-8', newline='')

    def isatty(self):
        return False


MESSAGES = ['']     # what the last command printed to standard error


def run(argv, stdin=None):
    """(status, standard output, error).  status: exit status, an uncaught
    exception counts as 1 (what the interpreter would exit with)."""
    out, err = _Output(), io.StringIO()
    problem = None
    try:
        status = _main.main([str(a) for a in argv], stdin=_Input(stdin), stdout=out, stderr=err)
        status = int(status) if status is not None else 0
    except SystemExit as e:
        status = e.code if isinstance(e.code, int) else 1
    except Exception as e:
        status, problem = 1, e
    finally:
        logging.getLogger('app-toron').handlers.clear()
    MESSAGES[0] = err.getvalue()
    try:
        out.flush()
    except ValueError:
        pass
    return status, out.raw_bytes.getvalue(), problem
