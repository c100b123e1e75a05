"""Programs are never run: the harness answers for them."""
import shlex


def words(args, shell):
    if shell:
        return shlex.split(args if isinstance(args, str) else args[0])
    if isinstance(args, str):
        return [args]
    return [str(a) for a in args]


class Process:
    stdin = stdout = stderr = None
    pid = 0

    def wait(self, timeout=None):
        return self.returncode

    poll = wait

    def communicate(self, *a, **k):
        return None, None

    def kill(self):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *a):
        pass


def popen(env):
    class Popen(Process):
        def __init__(self, args, *a, **k):
            self.args = args
            self.returncode = env.command_fn(words(args, k.get("shell")))
    return Popen
