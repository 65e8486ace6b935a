#!/bin/bash
# Switches the hooks on, for the library and the harness only.
rustc="$1"; shift
case " $* " in
  *" --crate-name visqol_rs "*|*" --crate-name vh "*) exec "$rustc" "$@" $VH_CFG ;;
esac
exec "$rustc" "$@"
