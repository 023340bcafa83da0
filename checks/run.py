import importlib, os, sys
here = os.path.dirname(os.path.abspath(__file__))
sys.path[:0] = [os.path.join(os.path.dirname(here), "lib"), here]
sys.setrecursionlimit(20000)
import threading
threading.stack_size(512 * 1024 * 1024)
import fw
pid = sys.argv[1]
code = 3


def main():
    global code
    m = importlib.import_module("c_" + pid.lower())
    try:
        fw.run(pid, m.body)
    except SystemExit as e:
        code = e.code


t = threading.Thread(target=main)
t.start()
t.join()
sys.stdout.flush()
os._exit(code if isinstance(code, int) else 3)
