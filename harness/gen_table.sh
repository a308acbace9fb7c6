#!/bin/bash
# src/table.rs: every entry of every module, by name
cd "$(dirname "$0")/src"
{ echo 'static TABLE: &[(&str, extern "C" fn())] = &['
  for f in p_*.rs; do m="${f%.rs}"; sed -n 's/^entry! { \(h_[a-z0-9_]*\) .*/\1/p' "$f" | sed "s/.*/    (\"&\", $m::&),/"; done
  echo '];'; } > table.rs.new
cmp -s table.rs.new table.rs || cp table.rs.new table.rs
unlink table.rs.new
