"""Development aid: record the lines of the package that are executed
(MC_COV=directory), one file per worker process."""
import os
import sys

SEEN = set()


def start(repo):
    d = os.environ.get('MC_COV')
    if not d:
        return
    m = sys.monitoring
    m.use_tool_id(m.COVERAGE_ID, 'mc')
    pre = os.path.join(repo, 'sporco') + os.sep

    def line(code, n):
        f = code.co_filename
        if f.startswith(pre):
            SEEN.add((f[len(pre):], n))
        return m.DISABLE
    m.register_callback(m.COVERAGE_ID, m.events.LINE, line)
    m.set_events(m.COVERAGE_ID, m.events.LINE)


def save():
    d = os.environ.get('MC_COV')
    if not d:
        return
    with open(os.path.join(d, '%d' % os.getpid()), 'w') as f:
        for x in sorted(SEEN):
            f.write('%s:%d\n' % x)
