"""stop a library call at its k-th line: to cut it short, or to let another caller run there"""
import os
import sys

HOME = os.path.join(os.getcwd(), "src")
sys.path.insert(0, HOME)
sys.dont_write_bytecode = True


def at_line(k, act, call):
    """run call(); when the k-th line of library code is about to run, act() runs first.
    Returns (reached, outcome)."""
    seen = [0, False]

    def trace(frame, event, arg):
        if not frame.f_code.co_filename.startswith(HOME):
            return None
        if event == "line":
            seen[0] += 1
            if seen[0] == k and not seen[1]:
                seen[1] = True
                sys.settrace(None)
                try:
                    act()
                finally:
                    sys.settrace(trace)
        return trace

    sys.settrace(trace)
    try:
        out = ("ok", call())
    except Exception as exc:
        out = ("exc", type(exc).__name__)
    finally:
        sys.settrace(None)
    return seen[1], out


class Cut(Exception):
    pass


def cut():
    raise Cut()


def expect(ok, text):
    if not ok:
        print("FAILED: " + text)
        sys.exit(1)
