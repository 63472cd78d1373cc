"""C03: block times"""
from specs.ipccore import run_qsend
from specs.clientcore import *

UNITS = [Unit("tpsblktime", ["client"], run_setblk), Unit("tpgblktime", ["client"], run_getblk), Unit("next_blocktime", ["client"], run_nextblk),
         Unit("qsend queue", ["ipc"], run_qsend("queue")), Unit("qsend file", ["ipc"], run_qsend("file"))]


def replay(failed, tmp):
    return cxx_driver(tmp, "client.cpp", libtus(), extra_tu={"mib": ["-Dgetmib=real_getmib"]})
