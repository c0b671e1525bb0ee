#![feature(formatting_options, associated_type_defaults, unsized_fn_params, ptr_metadata, allocator_api, unsize)]
#![allow(internal_features, incomplete_features, static_mut_refs)]
pub mod bulk;
pub mod cap;
pub mod cmp;
pub mod empl;
pub mod fam;
pub mod hist;
pub mod iter;
pub mod model;
pub mod panic;
pub mod ser;
pub mod sized;
pub mod stdm;
pub mod text;
pub mod uv;
use bulk::*;
use cap::*;
use cmp::*;
use empl::*;
use fam::*;
use hist::*;
use iter::*;
use panic::*;
use ser::*;
use text::*;
use sized::*;

macro_rules! fam_ty {
    (u8) => { Slice<u8> };
    (u32) => { Slice<u32> };
    (u96) => { Slice<[u32; 3]> };
    (sd) => { SliceD };
    (str) => { Str };
    (cs) => { Cs };
    (dyn) => { Dyn };
    (dst) => { Cust };
    (dd) => { CustD };
    (s4) => { Si<u32> };
    (s12) => { Si<[u32; 3]> };
    (siD) => { SiD };
    (zst) => { Si<()> };
    (siZ) => { SiZ };
    (sz) => { SliceZ };
    (os) => { Os };
    (pa) => { Pa };
    (dyndd) => { DynDd };
    (ddsi) => { DdSi };
    (sidyn) => { SiDyn };
    (dynz) => { DynZ };
    (dyna) => { DynA };
    (sdu) => { SliceDU };
    (k1) => { Same<One> };
    (k4) => { Same<u32> };
    (k8) => { Same<u64> };
    (k12) => { Same<[u32; 3]> };
    (k0) => { Same<()> };
    (k32) => { Same<Big> };
    (kD) => { Same<D> };
    (kZ) => { Zeros };
    (zsl) => { Slice<()> };
}

/// Exports `<name>_<family>` for each family and lists them for the native replay.
macro_rules! harnesses {
    ($($name:ident : $f:ident [$($fam:tt)*])* ; $($plain:ident)* ; $($oname:ident $ename:ident : $e:ident [$($efam:tt)*])* ; $($op:ident $ep:ident : $epf:ident)*) => {
        $($(
            const _: () = {
                #[unsafe(export_name = concat!(stringify!($name), "_", stringify!($fam)))]
                pub fn h() { $f::<fam_ty!($fam)>() }
            };
        )*)*
        $(
            const _: () = {
                #[unsafe(export_name = stringify!($plain))]
                pub fn h() { $plain() }
            };
        )*
        $($(
            const _: () = {
                #[unsafe(export_name = concat!(stringify!($ename), "_", stringify!($efam)))]
                pub fn h() { $e::<fam_ty!($efam), false>() }
            };
            const _: () = {
                #[unsafe(export_name = concat!(stringify!($oname), "_", stringify!($efam)))]
                pub fn h() { $e::<fam_ty!($efam), true>() }
            };
        )*)*
        $(
            const _: () = {
                #[unsafe(export_name = stringify!($ep))]
                pub fn h() { $epf::<false>() }
            };
            const _: () = {
                #[unsafe(export_name = stringify!($op))]
                pub fn h() { $epf::<true>() }
            };
        )*
        pub static TABLE: &[(&str, fn())] = &[
            $($( (concat!(stringify!($name), "_", stringify!($fam)), $f::<fam_ty!($fam)>), )*)*
            $( (stringify!($plain), $plain), )*
            $($( (concat!(stringify!($ename), "_", stringify!($efam)), $e::<fam_ty!($efam), false>),
                 (concat!(stringify!($oname), "_", stringify!($efam)), $e::<fam_ty!($efam), true>), )*)*
            $( (stringify!($ep), $epf::<false>), (stringify!($op), $epf::<true>), )*
        ];
    };
}

harnesses! {
    push: push1 [u8 u32 u96 sd str cs dyn dst dd s4 s12 siD zst zsl]
    pushw: push_with1 [u8 u32 u96 sd str cs dyn dst dd s4 s12 siD zst]
    ins: insert1 [u8 u32 u96 sd str cs dyn dst dd s4 s12 siD zst]
    insw: insert_with1 [u8 u32 u96 sd str cs dyn dst dd s4 s12 siD zst]
    uns: unsize1 [u8 u32 dyn dst]
    add3: add3 [u8 u32 sd str dyn dst dd s4 siD zst]
    add4: add4 [u8 u32 str dyn dst s4]
    rem: remove1 [u8 u32 u96 sd str cs dyn dst dd s4 s12 siD zst]
    remp: remove_pre [u8 u32 sd str dyn dst dd s4 siD]
    rem2: remove2 [u8 u32 sd str dyn dst dd s4 siD zst]
    remadd: remove_add [u8 u32 sd str dyn dst dd s4 siD zst]
    remoth: remove_into_other [u8 u32 sd str dyn dst dd s4 siD zst]
    iout: index_out [u8 u32 sd str dyn dst dd s4 siD zst]
    iin: index_in [u8 u32 sd str dyn dst dd s4 siD zst]
    iuns: insert_unsize_out [u8 u32 dyn dst]
    mix2: mix2 [u8 u32 sd str dyn dst dd s4 siD zst]
    mix3: mix3 [u8 u32 sd str dyn dst dd s4 siD zst]
    mix4: mix4 [u8 u32 sd str dyn dst dd s4 siD zst]
    long: long [u8 u32 sd str dyn dst dd s4 siD zst]
    drop: drop1 [u8 u32 u96 sd str cs dyn dst dd s4 siD zst]
    read: read_only [u8 u32 u96 sd str cs dyn dst dd s4 s12 siD zst]
    it0: iter0 [u8 u32 sd str dyn dst dd s4 siD zst]
    it1: iter1 [u8 u32 sd str dyn dst dd s4 siD zst]
    it2: iter2 [u8 u32 sd str dyn dst dd s4 siD zst]
    it3: iter3 [u8 dyn dst dd s4 zst]
    itm1: iter_mut1 [u8 u32 sd str dyn dst dd s4 siD zst]
    itm2: iter_mut2 [u8 u32 sd str dyn dst dd s4 siD zst]
    itm3: iter_mut3 [u8 dyn dst dd s4 zst]
    itw: iter_write [u8 u32 sd str dyn dst dd s4 siD zst]
    res: reserve1 [u8 u32 u96 sd str cs dyn dst dd s4 s12 siD zst]
    res2: reserve2 [u8 u32 sd str dyn dst dd s4 s12 zst]
    wcap: with_cap [u8 u32 u96 sd str cs dyn dst dd s4 s12 siD zst]
    grow: growth [u8 u32 u96 sd str dyn dst dd s4 s12 zst]
    shr: shrink1 [u8 u32 u96 sd str cs dyn dst dd s4 s12 siD zst]
    shru: shrink_use [u8 u32 sd str dyn dst dd s4 s12 siD zst]
    shrr: shrink_rem [u8 u32 sd str dyn dst dd s4 s12 siD zst]
    rea1: realign1 [dyn dst dd]
    rea2: realign2 [dyn dst dd]
    rea3: realign3 [dyn dst dd]
    rea4: realign4 [dyn dst dd]
    rea5: realign5 [dyn dst dd]
    big: reserve_big [u8 u32 u96 sd str dyn dst dd s4 s12 zst]
    big2: reserve_big2 [u8 u32 str dyn dst dd s4 s12 zst]
    fail: alloc_fail [u8 u32 sd str dyn dst dd s4 s12 zst]
    failop: alloc_fail_op [u8 u32 sd str dyn dst dd s4 s12 zst]
    fallb: alloc_fallback [u8 u32 sd str dyn dst dd s4 s12]
    bada: bad_align [u8 str dyn dst dd s4 zst]
    padd: pan_add [u8 u32 sd str dyn dst dd s4 siD zst]
    proom: pan_roomy [u8 u32 sd str dyn dst dd s4 siD zst]
    prem: pan_rem [u8 u32 sd str dyn dst dd s4 siD zst]
    pbomb: pan_bomb [sd dyn dd siD]
    poth: pan_other [u8 u32 sd str dyn dst dd s4 siD zst]
    pdrop: pan_drop [sd dyn dd siD]
    pbox: pan_box [u8 u32 sd str cs dyn dst dd s4 siD siZ zst]
    pwef: pan_wef [u8 sd dyn dd siD siZ]
    pext: pan_ext [u8 u32 sd dyn dst dd s4 siD zst]
    pcol: pan_col [u8 u32 sd dyn dst dd s4 siD zst]
    piter: pan_iter [s4 siD zst]
    ceq: cmp_eq [u8 u32 sd str cs dyn dd s4 siD dyndd ddsi sidyn zst]
    cpo: cmp_partial [u8 u32 sd str cs dyn dd s4 siD dyndd ddsi sidyn zst]
    cmpl: cmp_long [s4 siD zst]
    hashl: hash_long [sd dd s4 siD zst]
    cto: cmp_total [u8 u32 sd str cs dyn dd s4 siD zst]
    fvec: from_vec [s4 s12 siD zst]
    unsz: unsize_all [u8 u32 dyn dst dynz dyna sdu]
    clone: clone_plain [s4 s12 zst]
    fvecl: from_long [s4 s12 siD zst]
    unszl: unsize_long [u8 u32 dyn dst dynz dyna sdu]
    clonel: clone_long [s4 s12 zst]
    ext: extend_all [u8 u32 sd str cs dyn dst dd s4 s12 siD zst]
    exth: extend_huge [u8 sd dyn dd s4 siD zst]
    macv: mac_unsized [u8 u32 sd str cs dyn dst dd s4 s12 siD zst]
    macu: mac_unsize [u8 u32 dyn dst dynz dyna sdu]
    empty: empty [u8 u32 sd str cs dyn dst dd s4 s12 siD zst]
    siz1: sized2 [k1 k4 k8 k12 k0 k32 kD kZ]
    siz2: sized3 [k1 k4 k8 k12 k0 k32 kD kZ]
    dbg: debug_all [sd dyn dd siD]
    dbgl: debug_long [sd dd siD]
    serl: ser_long [sd dd s4 s12 siD zst]
    ser: ser_all [u8 u32 sd str dyn dd s4 s12 siD zst]
    chash: hash_all [u8 u32 sd str cs dyn dd s4 siD zst]
    ;
    clone_drop iter_slice pan_clone pan_vclone pan_arr
    ;
    obox ebox: e_box [u8 u32 u96 sd str cs dyn dst dd s4 s12 siD siZ zst os pa]
    oself eself: e_self [s4 s12 siD siZ zst]
    oget eget: e_get [s4 s12 siD siZ zst]
    ovec evec: e_vec [u8 u32 u96 sd]
    oslice eslice: e_slice [u8 u32 u96]
    oiter eiter: e_iter [s4 siD siZ zst]
    ovext evext: e_vext [s4 siD siZ zst]
    olen elen: e_len [s4 s12 siD siZ zst]
    oval eval: e_val [u8 u32 sd str cs dyn dst dd s4 siD siZ zst]
    ovalv evalv: e_valv [u8 u32 sd str cs dyn dst dd s4 siD siZ zst]
    ointo einto: e_into [u8 u32 u96 sd sz zsl]
    ;
    oclone eclone: e_clone
    ostr estr: e_str
    ocstr ecstr: e_cstr
    oos eos: e_os
    opath epath: e_path
    oarr earr: e_arr
    oarr3 earr3: e_arr3
    oarr7 earr7: e_arr7
    oarr0 earr0: e_arr0
    ouns euns: e_uns
    ovecz evecz: e_vecz
    oboxz eboxz: e_boxz
    ostru8 estru8: e_stru8
    ostring estring: e_string
    ointos eintos: e_intostring
    ocstring ecstring: e_cstring
    oosstring eosstring: e_osstring
    opathbuf epathbuf: e_pathbuf
    omac emac: e_mac
    ohand ehand: e_hand
}
