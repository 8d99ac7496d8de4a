"""pytest plugin: run the project's tests on the instrumented code with an
active engine, so that the container models stand in for list, dict and set."""
import os
import signal
import sys
HERE = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.path.insert(0, HERE)
sys.path.append('/opt/venv/lib/python3.12/site-packages')
from pvc import instr, core, hooks      # noqa: E402
import pytest                           # noqa: E402

hooks.PACKAGES += ('tests', 'classes')
instr.install(['jsonclasses'], os.environ.get('PVC_REPO', '/repo'))

class TooLong(BaseException):
    pass

def alarm(*a):
    raise TooLong()

@pytest.hookimpl(hookwrapper=True)
def pytest_runtest_call(item):
    signal.signal(signal.SIGALRM, alarm)
    signal.alarm(20)
    e = core.Engine()
    e.class_writes = True
    core.set_engine(e)
    yield
    core.set_engine(None)
    signal.alarm(0)
