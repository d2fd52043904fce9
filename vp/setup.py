"""python3 -m vp.setup: build both harnesses once (every check rebuilds them from /repo's current tree anyway)"""
from . import core
if __name__ == '__main__':
    print(core.build('sym'))
    print(core.build('real'))
