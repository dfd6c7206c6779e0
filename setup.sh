#!/bin/bash
# Nothing to install: verify that the pre-installed tools work offline.
set -e
cd "$(dirname "$0")"
T=$(mktemp -d)
trap 'rm -rf "$T"' EXIT
javac -nowarn -cp /opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar -d "$T" java/*.java
mkdir -p evidence
echo setup ok
