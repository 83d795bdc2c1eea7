#!/bin/bash
# offline sanity of the tool chain; every check rebuilds what it needs from /repo's working tree
cd "$(dirname "$0")" && . /opt/vp/env.sh && go version && python3 --version
