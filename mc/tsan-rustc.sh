#!/bin/bash
# Compiles the crate under test with thread instrumentation; its entry points are
# those of sched/, not a sanitizer runtime.
rustc="$1"; shift
case " $* " in
*" --crate-name il2_iltags "*) exec "$rustc" "$@" -Zsanitizer=thread -Cunsafe-allow-abi-mismatch=sanitizer ;;
*" --crate-name "*) exec "$rustc" "$@" -Cunsafe-allow-abi-mismatch=sanitizer ;;
esac
exec "$rustc" "$@"
