//! Minimal bindings to the LLVM C API exported by the Rust toolchain's own libLLVM.
#![allow(non_snake_case, dead_code, clippy::upper_case_acronyms)]
use std::ffi::{c_char, c_int, c_uint, c_void, CStr, CString};

pub type Ref = *mut c_void;

extern "C" {
    fn dlopen(f: *const c_char, flag: c_int) -> *mut c_void;
    fn dlsym(h: *mut c_void, s: *const c_char) -> *mut c_void;
    fn dlerror() -> *const c_char;
}

macro_rules! api {
    ($( fn $name:ident ( $($a:ident : $t:ty),* ) $(-> $r:ty)? ; )*) => {
        pub struct Api { $( $name: unsafe extern "C" fn($($t),*) $(-> $r)?, )* }
        impl Api {
            pub fn load(path: &str) -> Result<Api, String> {
                unsafe {
                    let p = CString::new(path).unwrap();
                    let h = dlopen(p.as_ptr(), 0x102);
                    if h.is_null() { return Err(CStr::from_ptr(dlerror()).to_string_lossy().into_owned()); }
                    Ok(Api { $( $name: {
                        let s = CString::new(stringify!($name)).unwrap();
                        let f = dlsym(h, s.as_ptr());
                        if f.is_null() { return Err(format!("missing {}", stringify!($name))); }
                        std::mem::transmute::<*mut c_void, unsafe extern "C" fn($($t),*) $(-> $r)?>(f)
                    }, )* })
                }
            }
            $( pub fn $name(&self, $($a: $t),*) $(-> $r)? { unsafe { (self.$name)($($a),*) } } )*
        }
    };
}

api! {
    fn LLVMContextCreate() -> Ref;
    fn LLVMCreateMemoryBufferWithContentsOfFile(path: *const c_char, out: *mut Ref, msg: *mut *mut c_char) -> c_int;
    fn LLVMParseBitcodeInContext2(ctx: Ref, buf: Ref, out: *mut Ref) -> c_int;
    fn LLVMGetModuleDataLayout(m: Ref) -> Ref;
    fn LLVMGetFirstGlobal(m: Ref) -> Ref;
    fn LLVMGetNextGlobal(m: Ref) -> Ref;
    fn LLVMGetFirstGlobalAlias(m: Ref) -> Ref;
    fn LLVMGetNextGlobalAlias(m: Ref) -> Ref;
    fn LLVMAliasGetAliasee(m: Ref) -> Ref;
    fn LLVMGetInitializer(g: Ref) -> Ref;
    fn LLVMGlobalGetValueType(g: Ref) -> Ref;
    fn LLVMGetAlignment(g: Ref) -> c_uint;
    fn LLVMGetFirstFunction(m: Ref) -> Ref;
    fn LLVMGetNextFunction(m: Ref) -> Ref;
    fn LLVMIsDeclaration(m: Ref) -> c_int;
    fn LLVMGetValueName2(v: Ref, len: *mut usize) -> *const c_char;
    fn LLVMCountParams(f: Ref) -> c_uint;
    fn LLVMGetParam(f: Ref, i: c_uint) -> Ref;
    fn LLVMGetFirstBasicBlock(f: Ref) -> Ref;
    fn LLVMGetNextBasicBlock(f: Ref) -> Ref;
    fn LLVMGetFirstInstruction(f: Ref) -> Ref;
    fn LLVMGetNextInstruction(f: Ref) -> Ref;
    fn LLVMGetInstructionOpcode(f: Ref) -> c_int;
    fn LLVMGetNumOperands(f: Ref) -> c_int;
    fn LLVMGetOperand(f: Ref, i: c_uint) -> Ref;
    fn LLVMTypeOf(f: Ref) -> Ref;
    fn LLVMGetTypeKind(f: Ref) -> c_int;
    fn LLVMGetIntTypeWidth(f: Ref) -> c_uint;
    fn LLVMGetICmpPredicate(f: Ref) -> c_int;
    fn LLVMGetFCmpPredicate(f: Ref) -> c_int;
    fn LLVMCountIncoming(f: Ref) -> c_uint;
    fn LLVMGetIncomingValue(f: Ref, i: c_uint) -> Ref;
    fn LLVMGetIncomingBlock(f: Ref, i: c_uint) -> Ref;
    fn LLVMGetNumSuccessors(f: Ref) -> c_uint;
    fn LLVMGetSuccessor(f: Ref, i: c_uint) -> Ref;
    fn LLVMGetSwitchDefaultDest(f: Ref) -> Ref;
    fn LLVMGetSwitchCaseValue(f: Ref, i: c_uint) -> Ref;
    fn LLVMGetGEPSourceElementType(f: Ref) -> Ref;
    fn LLVMOffsetOfElement(td: Ref, ty: Ref, i: c_uint) -> u64;
    fn LLVMABISizeOfType(td: Ref, ty: Ref) -> u64;
    fn LLVMStoreSizeOfType(td: Ref, ty: Ref) -> u64;
    fn LLVMABIAlignmentOfType(td: Ref, ty: Ref) -> c_uint;
    fn LLVMGetElementType(f: Ref) -> Ref;
    fn LLVMGetArrayLength2(f: Ref) -> u64;
    fn LLVMGetVectorSize(f: Ref) -> c_uint;
    fn LLVMCountStructElementTypes(f: Ref) -> c_uint;
    fn LLVMStructGetTypeAtIndex(f: Ref, i: c_uint) -> Ref;
    fn LLVMGetCalledValue(f: Ref) -> Ref;
    fn LLVMGetNumArgOperands(f: Ref) -> c_uint;
    fn LLVMGetNormalDest(f: Ref) -> Ref;
    fn LLVMGetNumIndices(f: Ref) -> c_uint;
    fn LLVMGetIndices(f: Ref) -> *const c_uint;
    fn LLVMGetNumMaskElements(f: Ref) -> c_uint;
    fn LLVMGetMaskValue(f: Ref, i: c_uint) -> c_int;
    fn LLVMGetAtomicRMWBinOp(f: Ref) -> c_int;
    fn LLVMGetAllocatedType(f: Ref) -> Ref;
    fn LLVMGetValueKind(f: Ref) -> c_int;
    fn LLVMConstIntGetZExtValue(f: Ref) -> u64;
    fn LLVMGetConstOpcode(f: Ref) -> c_int;
    fn LLVMGetAggregateElement(f: Ref, i: c_uint) -> Ref;
    fn LLVMPrintValueToString(f: Ref) -> *mut c_char;
    fn LLVMPrintTypeToString(f: Ref) -> *mut c_char;
    fn LLVMConstRealGetDouble(f: Ref, l: *mut c_int) -> f64;
    fn LLVMGetRawDataValues(f: Ref, n: *mut usize) -> *const c_char;
    fn LLVMGetInlineAsmAsmString(f: Ref, n: *mut usize) -> *const c_char;
    fn LLVMGetCastOpcode(f: Ref) -> c_int;
}

impl Api {
    pub fn name(&self, v: Ref) -> String {
        let mut n = 0usize;
        let p = self.LLVMGetValueName2(v, &mut n);
        if p.is_null() { return String::new(); }
        unsafe { String::from_utf8_lossy(std::slice::from_raw_parts(p as *const u8, n)).into_owned() }
    }
    pub fn print(&self, v: Ref) -> String {
        unsafe { CStr::from_ptr(self.LLVMPrintValueToString(v)).to_string_lossy().into_owned() }
    }
    pub fn print_ty(&self, v: Ref) -> String {
        unsafe { CStr::from_ptr(self.LLVMPrintTypeToString(v)).to_string_lossy().into_owned() }
    }
    /// Demangles a Rust v0 symbol with LLVM's own demangler.
    pub fn demangle(s: &str) -> Option<String> {
        unsafe {
            let n = CString::new("_ZN4llvm12rustDemangleESt17basic_string_viewIcSt11char_traitsIcEE").unwrap();
            let f = dlsym(std::ptr::null_mut(), n.as_ptr());
            if f.is_null() || !s.starts_with("_R") { return None; }
            let f: unsafe extern "C" fn(usize, *const u8) -> *const c_char = std::mem::transmute(f);
            let r = f(s.len(), s.as_ptr());
            if r.is_null() { return None; }
            Some(CStr::from_ptr(r).to_string_lossy().into_owned())
        }
    }
    pub fn load_module(&self, path: &str) -> Result<Ref, String> {
        let ctx = self.LLVMContextCreate();
        let p = CString::new(path).unwrap();
        let mut buf: Ref = std::ptr::null_mut();
        let mut msg: *mut c_char = std::ptr::null_mut();
        if self.LLVMCreateMemoryBufferWithContentsOfFile(p.as_ptr(), &mut buf, &mut msg) != 0 {
            return Err(format!("cannot read {path}"));
        }
        let mut m: Ref = std::ptr::null_mut();
        if self.LLVMParseBitcodeInContext2(ctx, buf, &mut m) != 0 {
            return Err("bitcode parse error".into());
        }
        Ok(m)
    }
}
