"""Line recorder for development (VERIF_COV=file): appends every first-executed line of the repository."""
import os
import sys


def start(path, repo):
    fd = os.open(path, os.O_WRONLY | os.O_CREAT | os.O_APPEND)
    root = os.path.realpath(repo) + os.sep
    M = sys.monitoring
    M.use_tool_id(4, 'verif')

    def line(code, n):
        f = os.path.realpath(code.co_filename)
        if f.startswith(root):
            os.write(fd, ('%s:%d\n' % (f[len(root):], n)).encode())
        return M.DISABLE
    M.register_callback(4, M.events.LINE, line)
    M.set_events(4, M.events.LINE)
