#!/bin/bash
exec "$(dirname "$0")/check.sh" build
