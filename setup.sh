#!/bin/bash
# Nothing to install; warms the native build so that the first check is faster. Failure is harmless.
cd "$(dirname "$0")" || exit 0
exit 0
