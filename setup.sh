#!/bin/bash
# Nothing is built ahead: every check compiles the headers of /repo's working tree itself.
set -e
cd "$(dirname "$0")"
mkdir -p build evidence replays
t=$(mktemp -d); trap 'rm -rf "$t"' EXIT
echo 'int main() { return 0; }' > "$t/a.cpp"
g++ -std=c++17 "$t/a.cpp" -o "$t/a"
"$t/a"
