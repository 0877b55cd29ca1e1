#!/bin/bash
set -u
V="$(cd "$(dirname "$0")" && pwd)"
. "$V/lib_build.sh"
vh_build all
