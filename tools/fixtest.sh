#!/bin/bash
# rebuild /repo and run its stable tests (used before every fix: commit)
bash /opt/vp/build.sh >/tmp/fb.log 2>&1 || { tail -30 /tmp/fb.log; exit 1; }
bash /opt/vp/test.sh /tmp/ft.json 2>&1 | tail -1 | tee /tmp/ft.last; grep -q " 0 failed" /tmp/ft.last
