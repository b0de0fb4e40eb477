#!/bin/bash
# try.sh FILE.c OUT [gcc flags]: link a small C program with the library sources under address+undefined sanitizers
f=$1; o=$2; shift 2
gcc -w -g -D_GNU_SOURCE -pthread -DIOT_BUILD_COMPONENTS -DIOT_BUILD_DYNAMIC_LOAD -fsanitize=address,undefined "$@" -I/repo/include -I/verif/build/inc -I/repo/src/c $f $(ls /repo/src/c/*.c | grep -v /os.c) -lyaml -ldl -lm -o $o
