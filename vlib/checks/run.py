import importlib, os, sys
here = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, here)
sys.path.insert(0, os.path.dirname(here))
import threading
import core


def go(prop):
    m = importlib.import_module(prop.lower())
    return core.main(prop, m.check, m.RULE, level=getattr(m, "LEVEL", "other"),
                     assumptions=getattr(m, "ASSUMPTIONS", ()), trusted=getattr(m, "TRUSTED", None))


if __name__ == "__main__":
    rc = [1]
    threading.stack_size(512 * 1024 * 1024)

    def body():
        try:
            rc[0] = go(sys.argv[1])
        except BaseException:
            import traceback
            traceback.print_exc()
            print("VIOLATION property=%s replay=%s" % (sys.argv[1], "evidence"))
            rc[0] = 1
    t = threading.Thread(target=body)
    t.start()
    t.join()
    sys.stdout.flush()
    os._exit(rc[0])
