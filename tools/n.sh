#!/bin/bash
# n.sh module harness [secs] : run one harness natively
cd /verif; echo '{"cmd":"random","module":"'$1'","harness":"'$2'","secs":'${3:-3}',"seed":'${4:-1}'}' | VERIF_NATIVE_STDERR=1 /opt/venv/bin/python rt/native.py | cut -c1-${5:-1800}
