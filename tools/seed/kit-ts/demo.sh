#!/bin/bash
# Run in the root of the repository.
exec node "$(dirname "$0")/demo.mjs"
