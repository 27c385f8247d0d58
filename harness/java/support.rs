// Native side of harness/java/vh/VH.java.
use crate::{jni_c_header::*, vh};
fn bytes(env: *mut JNIEnv, a: jbyteArray) -> Vec<u8> {
    unsafe {
        let n = (**env).GetArrayLength.unwrap()(env, a);
        let mut v = vec![0u8; n as usize];
        (**env).GetByteArrayRegion.unwrap()(env, a, 0, n, v.as_mut_ptr() as *mut _);
        v
    }
}
#[no_mangle]
pub extern "system" fn Java_vh_VH_log0(env: *mut JNIEnv, _c: jclass, a: jbyteArray) {
    let v = bytes(env, a);
    vh::log(&String::from_utf8_lossy(&v));
}
#[no_mangle]
pub extern "system" fn Java_vh_VH_flush(_e: *mut JNIEnv, _c: jclass) { vh::flush() }
#[no_mangle]
pub extern "system" fn Java_vh_VH_setSeed(_e: *mut JNIEnv, _c: jclass, s: jlong) {
    vh::LONG.store(true, std::sync::atomic::Ordering::SeqCst);
    vh::set_seed(s as u64)
}
#[no_mangle]
pub extern "system" fn Java_vh_VH_alive(_e: *mut JNIEnv, _c: jclass) -> jlong { vh::alive() as i64 }
#[no_mangle]
pub extern "system" fn Java_vh_VH_born(_e: *mut JNIEnv, _c: jclass) -> jlong { vh::born() as i64 }
#[no_mangle]
pub extern "system" fn Java_vh_VH_overDropped(_e: *mut JNIEnv, _c: jclass) -> jlong { vh::over_dropped() as i64 }
#[no_mangle]
pub extern "system" fn Java_vh_VH_poolClear(_e: *mut JNIEnv, _c: jclass) { vh::pool_clear() }
#[no_mangle]
pub extern "system" fn Java_vh_VH_logAlive(_e: *mut JNIEnv, _c: jclass) { vh::log(&format!("! not freed: {}", vh::alive_kinds())) }
#[no_mangle]
pub extern "system" fn Java_vh_VH_drops(_e: *mut JNIEnv, _c: jclass, t: jlong) -> jint { vh::drops_of(t as u64) as jint }
#[no_mangle]
pub extern "system" fn Java_vh_VH_setTag(_e: *mut JNIEnv, _c: jclass, t: jint) { vh::set_tag(t as u32) }
