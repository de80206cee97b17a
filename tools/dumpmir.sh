#!/bin/bash
# usage: dumpmir.sh OUT.json  -- exports the MIR of the mirror workspace's lib
set -e
HERE=$(cd "$(dirname "$0")/.." && pwd)
B=$HERE/build
OUT=$1
T=$(rustc +nightly --print sysroot)
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never CARGO_INCREMENTAL=0 CARGO_TARGET_DIR=$B/target-mir
export LD_LIBRARY_PATH=$T/lib MIRDUMP_CRATE=solstrale MIRDUMP_OUT=$OUT
export MIRDUMP_PRUNE="fmt::,panicking,alloc::handle,raw_vec,::sort::,sync::,thread::,io::,std::sys,unicode,str::,string::,collections::,hash::,num::flt2dec,num::dec2flt,num::bignum,backtrace,process::,env::,ffi::,path::,fs::,time::,error::,ptr::drop,drop_in_place,slice::sort,char::,vec::,alloc::Global,Allocator,layout::,cell::,any::"
export RUSTC_WORKSPACE_WRAPPER=$B/mirdump/release/mirdump
rm -rf $B/target-mir/debug/.fingerprint/solstrale-* $B/target-mir/debug/build/solstrale
rm -f "$OUT"
export CARGO_PROFILE_DEV_DEBUG_ASSERTIONS=false CARGO_PROFILE_DEV_OVERFLOW_CHECKS=true
cd $B/ws
cargo +nightly check --lib --offline >$B/dump.log 2>&1 || { tail -5 $B/dump.log|cut -c1-600; exit 2; }
test -s "$OUT"
