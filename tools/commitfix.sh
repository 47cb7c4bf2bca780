#!/bin/bash
# run the test suite, then commit /repo's working tree with the given message
cd /repo && bash /opt/vp/test.sh /tmp/o.json >/tmp/o.log 2>&1; tail -1 /tmp/o.log
grep -q '^114 passed, 0 failed' <(tail -1 /tmp/o.log) && git commit -qam "$1" && git log --oneline | head -1
