#!/bin/bash
# runs demo.js against the SDK of the current directory
HERE=$(cd "$(dirname "$0")" && pwd)
REPO=$PWD node "$HERE/demo.js"
