#!/bin/sh
# Compiler seam for generated kernels.  In the preemptive mode the compile step
# (never the link step) adds the compiler's memory-access instrumentation, whose
# callbacks are the simulator's preemption points.
if [ "$1" = "-c" ]; then
    exec g++ "$@" $SIM_CC_EXTRA
fi
exec g++ "$@"
