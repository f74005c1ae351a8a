//! Offline stand-in for the part of inkwell's API that yul2ir uses (and a little more), bound to
//! the system libLLVM-16.  Semantics follow inkwell 0.5 (rev 9f64611): same LLVM-C call per method,
//! same error conditions.
#![allow(clippy::all, dead_code)]
pub mod ffi;
use ffi::*;
use std::ffi::{CStr, CString};
use std::marker::PhantomData;

fn cs(s: &str) -> CString {
    CString::new(s.split('\0').next().unwrap_or("")).unwrap()
}
static EMPTY: &[u8] = b"\0";
fn ep() -> *const std::os::raw::c_char {
    EMPTY.as_ptr() as *const _
}
unsafe fn take(p: *mut std::os::raw::c_char) -> support::LLVMString {
    if p.is_null() {
        return support::LLVMString(String::new());
    }
    let s = CStr::from_ptr(p).to_string_lossy().into_owned();
    LLVMDisposeMessage(p);
    support::LLVMString(s)
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Default)]
pub struct AddressSpace(u32);
impl From<u16> for AddressSpace {
    fn from(v: u16) -> Self {
        AddressSpace(v as u32)
    }
}
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum IntPredicate {
    EQ = 32, NE, UGT, UGE, ULT, ULE, SGT, SGE, SLT, SLE,
}
#[derive(Clone, Copy, Debug, PartialEq, Eq, Default)]
pub enum OptimizationLevel {
    None = 0,
    Less = 1,
    #[default]
    Default = 2,
    Aggressive = 3,
}
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum GlobalVisibility { Default, Hidden, Protected }

pub mod support {
    #[derive(Clone, PartialEq, Eq)]
    pub struct LLVMString(pub(crate) String);
    impl LLVMString {
        pub fn to_string(&self) -> String { self.0.clone() }
        pub fn to_str(&self) -> Result<&str, std::str::Utf8Error> { Ok(&self.0) }
    }
    impl std::fmt::Display for LLVMString {
        fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { f.write_str(&self.0) }
    }
    impl std::fmt::Debug for LLVMString {
        fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { write!(f, "{:?}", self.0) }
    }
    impl std::error::Error for LLVMString {}
    impl std::ops::Deref for LLVMString { type Target = str; fn deref(&self) -> &str { &self.0 } }
}

pub mod context {
    use super::*;
    use crate::{basic_block::BasicBlock, builder::Builder, module::Module, types::*, values::*};
    #[derive(Debug, PartialEq, Eq)]
    pub struct Context(pub(crate) Ref);
    impl Context {
        pub fn create() -> Self { unsafe { Context(LLVMContextCreate()) } }
        pub fn create_module<'c>(&'c self, name: &str) -> Module<'c> {
            unsafe { Module::wrap(LLVMModuleCreateWithNameInContext(cs(name).as_ptr(), self.0), self.0) }
        }
        pub fn create_builder<'c>(&'c self) -> Builder<'c> { unsafe { Builder::wrap(LLVMCreateBuilderInContext(self.0)) } }
        pub fn void_type(&self) -> VoidType<'_> { unsafe { VoidType::wrap(LLVMVoidTypeInContext(self.0)) } }
        pub fn custom_width_int_type(&self, n: u32) -> IntType<'_> { unsafe { IntType::wrap(LLVMIntTypeInContext(self.0, n)) } }
        pub fn bool_type(&self) -> IntType<'_> { self.custom_width_int_type(1) }
        pub fn i8_type(&self) -> IntType<'_> { self.custom_width_int_type(8) }
        pub fn i16_type(&self) -> IntType<'_> { self.custom_width_int_type(16) }
        pub fn i32_type(&self) -> IntType<'_> { self.custom_width_int_type(32) }
        pub fn i64_type(&self) -> IntType<'_> { self.custom_width_int_type(64) }
        pub fn i128_type(&self) -> IntType<'_> { self.custom_width_int_type(128) }
        pub fn f32_type(&self) -> FloatType<'_> { unsafe { FloatType::wrap(LLVMFloatTypeInContext(self.0)) } }
        pub fn f64_type(&self) -> FloatType<'_> { unsafe { FloatType::wrap(LLVMDoubleTypeInContext(self.0)) } }
        pub fn ptr_type(&self, a: AddressSpace) -> PointerType<'_> { unsafe { PointerType::wrap(LLVMPointerTypeInContext(self.0, a.0)) } }
        pub fn struct_type<'c>(&'c self, f: &[BasicTypeEnum<'c>], packed: bool) -> StructType<'c> {
            let v: Vec<Ref> = f.iter().map(|t| t.as_type_ref()).collect();
            unsafe { StructType::wrap(LLVMStructTypeInContext(self.0, v.as_ptr(), v.len() as u32, packed as i32)) }
        }
        pub fn opaque_struct_type(&self, n: &str) -> StructType<'_> { unsafe { StructType::wrap(LLVMStructCreateNamed(self.0, cs(n).as_ptr())) } }
        pub fn const_struct<'c>(&'c self, f: &[BasicValueEnum<'c>], packed: bool) -> StructValue<'c> {
            let v: Vec<Ref> = f.iter().map(|t| t.as_value_ref()).collect();
            unsafe { StructValue::wrap(LLVMConstStructInContext(self.0, v.as_ptr(), v.len() as u32, packed as i32)) }
        }
        pub fn const_string<'c>(&'c self, s: &[u8], null_terminated: bool) -> ArrayValue<'c> {
            unsafe { ArrayValue::wrap(LLVMConstStringInContext(self.0, s.as_ptr() as *const _, s.len() as u32, !null_terminated as i32)) }
        }
        pub fn append_basic_block<'c>(&'c self, f: FunctionValue<'c>, name: &str) -> BasicBlock<'c> {
            unsafe { BasicBlock::wrap(LLVMAppendBasicBlockInContext(self.0, f.as_value_ref(), cs(name).as_ptr())) }
        }
        pub fn insert_basic_block_after<'c>(&'c self, b: BasicBlock<'c>, name: &str) -> BasicBlock<'c> {
            match b.get_next_basic_block() {
                Some(n) => self.prepend_basic_block(n, name),
                None => self.append_basic_block(b.get_parent().unwrap(), name),
            }
        }
        pub fn prepend_basic_block<'c>(&'c self, b: BasicBlock<'c>, name: &str) -> BasicBlock<'c> {
            unsafe { BasicBlock::wrap(LLVMInsertBasicBlockInContext(self.0, b.0, cs(name).as_ptr())) }
        }
        pub fn create_enum_attribute(&self, k: u32, v: u64) -> crate::attributes::Attribute { unsafe { crate::attributes::Attribute(LLVMCreateEnumAttribute(self.0, k, v)) } }
        pub fn create_string_attribute(&self, k: &str, v: &str) -> crate::attributes::Attribute {
            unsafe { crate::attributes::Attribute(LLVMCreateStringAttribute(self.0, k.as_ptr() as *const _, k.len() as u32, v.as_ptr() as *const _, v.len() as u32)) }
        }
    }
    impl Drop for Context { fn drop(&mut self) { unsafe { LLVMContextDispose(self.0) } } }
}

pub mod attributes {
    use super::*;
    #[derive(Clone, Copy, Debug, PartialEq, Eq)]
    pub struct Attribute(pub(crate) Ref);
    impl Attribute {
        pub fn get_named_enum_kind_id(n: &str) -> u32 { unsafe { LLVMGetEnumAttributeKindForName(n.as_ptr() as *const _, n.len()) } }
    }
    #[derive(Clone, Copy, Debug, PartialEq, Eq)]
    pub enum AttributeLoc { Return, Param(u32), Function }
    impl AttributeLoc {
        pub(crate) fn idx(self) -> u32 { match self { AttributeLoc::Return => 0, AttributeLoc::Param(i) => i + 1, AttributeLoc::Function => u32::MAX } }
    }
}

pub mod types {
    use super::*;
    use crate::values::*;
    pub unsafe trait AsTypeRef { fn as_type_ref(&self) -> Ref; }
    macro_rules! ty {
        ($n:ident) => {
            #[derive(Clone, Copy, PartialEq, Eq, Hash)]
            pub struct $n<'ctx>(pub(crate) Ref, PhantomData<&'ctx ()>);
            impl<'ctx> $n<'ctx> {
                pub(crate) unsafe fn wrap(r: Ref) -> Self { assert!(!r.is_null()); $n(r, PhantomData) }
                pub fn print_to_string(&self) -> support::LLVMString { unsafe { take(LLVMPrintTypeToString(self.0)) } }
                pub fn is_sized(self) -> bool { unsafe { LLVMTypeIsSized(self.0) != 0 } }
                pub fn fn_type(self, p: &[BasicMetadataTypeEnum<'ctx>], va: bool) -> FunctionType<'ctx> {
                    let v: Vec<Ref> = p.iter().map(|t| t.as_type_ref()).collect();
                    unsafe { FunctionType::wrap(LLVMFunctionType(self.0, v.as_ptr(), v.len() as u32, va as i32)) }
                }
            }
            unsafe impl<'ctx> AsTypeRef for $n<'ctx> { fn as_type_ref(&self) -> Ref { self.0 } }
            impl<'ctx> std::fmt::Display for $n<'ctx> { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { f.write_str(&self.print_to_string()) } }
            impl<'ctx> std::fmt::Debug for $n<'ctx> { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { write!(f, "{}({})", stringify!($n), &*self.print_to_string()) } }
        };
    }
    macro_rules! basic_ty {
        ($n:ident, $v:ident) => {
            ty!($n);
            impl<'ctx> $n<'ctx> {
                pub fn array_type(self, n: u32) -> ArrayType<'ctx> { unsafe { ArrayType::wrap(LLVMArrayType(self.0, n)) } }
                pub fn vec_type(self, n: u32) -> VectorType<'ctx> { unsafe { VectorType::wrap(LLVMVectorType(self.0, n)) } }
                pub fn ptr_type(self, a: AddressSpace) -> PointerType<'ctx> { unsafe { PointerType::wrap(LLVMPointerType(self.0, a.0)) } }
                pub fn size_of(self) -> Option<IntValue<'ctx>> { if self.is_sized() { unsafe { Some(IntValue::wrap(LLVMSizeOf(self.0))) } } else { None } }
                pub fn const_zero(self) -> $v<'ctx> { unsafe { $v::wrap(LLVMConstNull(self.0)) } }
                pub fn get_undef(self) -> $v<'ctx> { unsafe { $v::wrap(LLVMGetUndef(self.0)) } }
                pub fn get_poison(self) -> $v<'ctx> { unsafe { $v::wrap(LLVMGetPoison(self.0)) } }
                pub fn const_array(self, vs: &[$v<'ctx>]) -> ArrayValue<'ctx> {
                    let v: Vec<Ref> = vs.iter().map(|x| x.as_value_ref()).collect();
                    unsafe { ArrayValue::wrap(LLVMConstArray(self.0, v.as_ptr(), v.len() as u32)) }
                }
            }
            impl<'ctx> BasicType<'ctx> for $n<'ctx> {}
            impl<'ctx> AnyType<'ctx> for $n<'ctx> {}
        };
    }
    ty!(VoidType);
    ty!(FunctionType);
    basic_ty!(IntType, IntValue);
    basic_ty!(FloatType, FloatValue);
    basic_ty!(PointerType, PointerValue);
    basic_ty!(ArrayType, ArrayValue);
    basic_ty!(StructType, StructValue);
    basic_ty!(VectorType, VectorValue);
    impl<'ctx> AnyType<'ctx> for VoidType<'ctx> {}
    impl<'ctx> AnyType<'ctx> for FunctionType<'ctx> {}
    pub trait AnyType<'ctx>: AsTypeRef + std::fmt::Debug {}
    pub trait BasicType<'ctx>: AnyType<'ctx> {
        fn as_basic_type_enum(&self) -> BasicTypeEnum<'ctx> { unsafe { BasicTypeEnum::wrap(self.as_type_ref()) } }
        fn is_sized(&self) -> bool { unsafe { LLVMTypeIsSized(self.as_type_ref()) != 0 } }
        fn fn_type(&self, p: &[BasicMetadataTypeEnum<'ctx>], va: bool) -> FunctionType<'ctx> {
            let v: Vec<Ref> = p.iter().map(|t| t.as_type_ref()).collect();
            unsafe { FunctionType::wrap(LLVMFunctionType(self.as_type_ref(), v.as_ptr(), v.len() as u32, va as i32)) }
        }
        fn array_type(&self, n: u32) -> ArrayType<'ctx> { unsafe { ArrayType::wrap(LLVMArrayType(self.as_type_ref(), n)) } }
        fn size_of(&self) -> Option<IntValue<'ctx>> { if BasicType::is_sized(self) { unsafe { Some(IntValue::wrap(LLVMSizeOf(self.as_type_ref()))) } } else { None } }
        fn ptr_type(&self, a: AddressSpace) -> PointerType<'ctx> { unsafe { PointerType::wrap(LLVMPointerType(self.as_type_ref(), a.0)) } }
    }
    #[derive(Clone, Copy, Debug, PartialEq, Eq)]
    pub enum StringRadix { Binary, Octal, Decimal, Hexadecimal, Alphanumeric }
    impl StringRadix {
        fn radix(self) -> u8 { match self { Self::Binary => 2, Self::Octal => 8, Self::Decimal => 10, Self::Hexadecimal => 16, Self::Alphanumeric => 36 } }
        pub fn matches_str(&self, s: &str) -> bool {
            let d = s.strip_prefix(|c| c == '-' || c == '+').unwrap_or(s);
            let r = self.radix() as u32;
            !d.is_empty() && d.chars().all(|c| c.is_ascii() && c.is_digit(r))
        }
    }
    impl<'ctx> IntType<'ctx> {
        pub fn get_bit_width(self) -> u32 { unsafe { LLVMGetIntTypeWidth(self.0) } }
        pub fn const_int(self, v: u64, s: bool) -> IntValue<'ctx> { unsafe { IntValue::wrap(LLVMConstInt(self.0, v, s as i32)) } }
        pub fn const_int_from_string(self, s: &str, r: StringRadix) -> Option<IntValue<'ctx>> {
            if !r.matches_str(s) { return None; }
            unsafe { Some(IntValue::wrap(LLVMConstIntOfStringAndSize(self.0, s.as_ptr() as *const _, s.len() as u32, r.radix()))) }
        }
        pub fn const_int_arbitrary_precision(self, w: &[u64]) -> IntValue<'ctx> { unsafe { IntValue::wrap(LLVMConstIntOfArbitraryPrecision(self.0, w.len() as u32, w.as_ptr())) } }
        pub fn const_all_ones(self) -> IntValue<'ctx> { unsafe { IntValue::wrap(LLVMConstAllOnes(self.0)) } }
    }
    impl<'ctx> PointerType<'ctx> { pub fn const_null(self) -> PointerValue<'ctx> { unsafe { PointerValue::wrap(LLVMConstPointerNull(self.0)) } } }
    impl<'ctx> ArrayType<'ctx> {
        pub fn len(self) -> u32 { unsafe { LLVMGetArrayLength(self.0) } }
        pub fn is_empty(self) -> bool { self.len() == 0 }
        pub fn get_element_type(self) -> BasicTypeEnum<'ctx> { unsafe { BasicTypeEnum::wrap(LLVMGetElementType(self.0)) } }
    }
    impl<'ctx> VectorType<'ctx> { pub fn get_size(self) -> u32 { unsafe { LLVMGetVectorSize(self.0) } } }
    impl<'ctx> StructType<'ctx> {
        pub fn count_fields(self) -> u32 { unsafe { LLVMCountStructElementTypes(self.0) } }
        pub fn get_field_type_at_index(self, i: u32) -> Option<BasicTypeEnum<'ctx>> {
            if i >= self.count_fields() { return None; }
            unsafe { Some(BasicTypeEnum::wrap(LLVMStructGetTypeAtIndex(self.0, i))) }
        }
        pub fn get_field_types(self) -> Vec<BasicTypeEnum<'ctx>> { (0..self.count_fields()).map(|i| self.get_field_type_at_index(i).unwrap()).collect() }
        pub fn is_packed(self) -> bool { unsafe { LLVMIsPackedStruct(self.0) != 0 } }
        pub fn const_named_struct(self, f: &[BasicValueEnum<'ctx>]) -> StructValue<'ctx> {
            let v: Vec<Ref> = f.iter().map(|t| t.as_value_ref()).collect();
            unsafe { StructValue::wrap(LLVMConstStructInContext(LLVMGetTypeContext(self.0), v.as_ptr(), v.len() as u32, 0)) }
        }
    }
    impl<'ctx> FunctionType<'ctx> {
        pub fn get_return_type(self) -> Option<BasicTypeEnum<'ctx>> {
            unsafe { let r = LLVMGetReturnType(self.0); if LLVMGetTypeKind(r) == 0 { None } else { Some(BasicTypeEnum::wrap(r)) } }
        }
        pub fn count_param_types(self) -> u32 { unsafe { LLVMCountParamTypes(self.0) } }
        pub fn get_param_types(self) -> Vec<BasicTypeEnum<'ctx>> {
            let mut v = vec![std::ptr::null_mut(); self.count_param_types() as usize];
            unsafe { LLVMGetParamTypes(self.0, v.as_mut_ptr()); v.into_iter().map(|r| BasicTypeEnum::wrap(r)).collect() }
        }
        pub fn is_var_arg(self) -> bool { unsafe { LLVMIsFunctionVarArg(self.0) != 0 } }
    }
    macro_rules! tenum {
        ($n:ident) => {
            #[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
            pub enum $n<'ctx> {
                ArrayType(ArrayType<'ctx>), FloatType(FloatType<'ctx>), IntType(IntType<'ctx>),
                PointerType(PointerType<'ctx>), StructType(StructType<'ctx>), VectorType(VectorType<'ctx>),
            }
            impl<'ctx> $n<'ctx> {
                pub(crate) unsafe fn wrap(r: Ref) -> Self {
                    match LLVMGetTypeKind(r) {
                        1..=6 => $n::FloatType(FloatType::wrap(r)),
                        8 => $n::IntType(IntType::wrap(r)),
                        10 => $n::StructType(StructType::wrap(r)),
                        11 => $n::ArrayType(ArrayType::wrap(r)),
                        12 => $n::PointerType(PointerType::wrap(r)),
                        13 => $n::VectorType(VectorType::wrap(r)),
                        k => unreachable!("not a basic type: kind {k}"),
                    }
                }
                pub fn is_array_type(self) -> bool { matches!(self, $n::ArrayType(_)) }
                pub fn is_float_type(self) -> bool { matches!(self, $n::FloatType(_)) }
                pub fn is_int_type(self) -> bool { matches!(self, $n::IntType(_)) }
                pub fn is_pointer_type(self) -> bool { matches!(self, $n::PointerType(_)) }
                pub fn is_struct_type(self) -> bool { matches!(self, $n::StructType(_)) }
                pub fn is_vector_type(self) -> bool { matches!(self, $n::VectorType(_)) }
                pub fn into_array_type(self) -> ArrayType<'ctx> { if let $n::ArrayType(t) = self { t } else { panic!("Found {:?} but expected the ArrayType variant", self) } }
                pub fn into_float_type(self) -> FloatType<'ctx> { if let $n::FloatType(t) = self { t } else { panic!("Found {:?} but expected the FloatType variant", self) } }
                pub fn into_int_type(self) -> IntType<'ctx> { if let $n::IntType(t) = self { t } else { panic!("Found {:?} but expected the IntType variant", self) } }
                pub fn into_pointer_type(self) -> PointerType<'ctx> { if let $n::PointerType(t) = self { t } else { panic!("Found {:?} but expected the PointerType variant", self) } }
                pub fn into_struct_type(self) -> StructType<'ctx> { if let $n::StructType(t) = self { t } else { panic!("Found {:?} but expected the StructType variant", self) } }
                pub fn into_vector_type(self) -> VectorType<'ctx> { if let $n::VectorType(t) = self { t } else { panic!("Found {:?} but expected the VectorType variant", self) } }
                pub fn print_to_string(&self) -> support::LLVMString { unsafe { take(LLVMPrintTypeToString(self.as_type_ref())) } }
            }
            unsafe impl<'ctx> AsTypeRef for $n<'ctx> {
                fn as_type_ref(&self) -> Ref {
                    match self { $n::ArrayType(t) => t.0, $n::FloatType(t) => t.0, $n::IntType(t) => t.0, $n::PointerType(t) => t.0, $n::StructType(t) => t.0, $n::VectorType(t) => t.0 }
                }
            }
            impl<'ctx> From<ArrayType<'ctx>> for $n<'ctx> { fn from(t: ArrayType<'ctx>) -> Self { $n::ArrayType(t) } }
            impl<'ctx> From<FloatType<'ctx>> for $n<'ctx> { fn from(t: FloatType<'ctx>) -> Self { $n::FloatType(t) } }
            impl<'ctx> From<IntType<'ctx>> for $n<'ctx> { fn from(t: IntType<'ctx>) -> Self { $n::IntType(t) } }
            impl<'ctx> From<PointerType<'ctx>> for $n<'ctx> { fn from(t: PointerType<'ctx>) -> Self { $n::PointerType(t) } }
            impl<'ctx> From<StructType<'ctx>> for $n<'ctx> { fn from(t: StructType<'ctx>) -> Self { $n::StructType(t) } }
            impl<'ctx> From<VectorType<'ctx>> for $n<'ctx> { fn from(t: VectorType<'ctx>) -> Self { $n::VectorType(t) } }
            impl<'ctx> std::fmt::Display for $n<'ctx> { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { f.write_str(&self.print_to_string()) } }
        };
    }
    tenum!(BasicTypeEnum);
    tenum!(BasicMetadataTypeEnum);
    impl<'ctx> AnyType<'ctx> for BasicTypeEnum<'ctx> {}
    impl<'ctx> BasicType<'ctx> for BasicTypeEnum<'ctx> {}
    impl<'ctx> From<BasicTypeEnum<'ctx>> for BasicMetadataTypeEnum<'ctx> { fn from(t: BasicTypeEnum<'ctx>) -> Self { unsafe { BasicMetadataTypeEnum::wrap(t.as_type_ref()) } } }
    impl<'ctx> BasicTypeEnum<'ctx> {
        pub fn const_zero(self) -> BasicValueEnum<'ctx> { unsafe { BasicValueEnum::wrap(LLVMConstNull(self.as_type_ref())) } }
        pub fn get_undef(self) -> BasicValueEnum<'ctx> { unsafe { BasicValueEnum::wrap(LLVMGetUndef(self.as_type_ref())) } }
    }
}

pub mod values {
    use super::*;
    use crate::{basic_block::BasicBlock, module::Linkage, types::*};
    pub unsafe trait AsValueRef { fn as_value_ref(&self) -> Ref; }
    macro_rules! val {
        ($n:ident) => {
            #[derive(Clone, Copy, PartialEq, Eq, Hash)]
            pub struct $n<'ctx>(pub(crate) Ref, PhantomData<&'ctx ()>);
            impl<'ctx> $n<'ctx> {
                pub(crate) unsafe fn wrap(r: Ref) -> Self { assert!(!r.is_null()); $n(r, PhantomData) }
                pub fn print_to_string(self) -> support::LLVMString { unsafe { take(LLVMPrintValueToString(self.0)) } }
                pub fn set_name(&self, n: &str) { unsafe { LLVMSetValueName2(self.0, n.as_ptr() as *const _, n.len()) } }
                pub fn get_name(&self) -> &CStr { unsafe { let mut l = 0; CStr::from_ptr(LLVMGetValueName2(self.0, &mut l)) } }
                pub fn is_null(self) -> bool { unsafe { LLVMIsNull(self.0) != 0 } }
                pub fn is_undef(self) -> bool { unsafe { LLVMIsUndef(self.0) != 0 } }
                pub fn is_const(self) -> bool { unsafe { LLVMIsConstant(self.0) != 0 } }
                pub fn as_instruction(self) -> Option<InstructionValue<'ctx>> { unsafe { if LLVMIsAInstruction(self.0).is_null() { None } else { Some(InstructionValue::wrap(self.0)) } } }
            }
            unsafe impl<'ctx> AsValueRef for $n<'ctx> { fn as_value_ref(&self) -> Ref { self.0 } }
            impl<'ctx> std::fmt::Display for $n<'ctx> { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { f.write_str(&self.print_to_string()) } }
            impl<'ctx> std::fmt::Debug for $n<'ctx> { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { write!(f, "{}({:p})", stringify!($n), self.0) } }
        };
    }
    macro_rules! basic_val {
        ($n:ident, $t:ident) => {
            val!($n);
            impl<'ctx> $n<'ctx> { pub fn get_type(self) -> $t<'ctx> { unsafe { $t::wrap(LLVMTypeOf(self.0)) } } }
            impl<'ctx> BasicValue<'ctx> for $n<'ctx> {}
            impl<'ctx> AnyValue<'ctx> for $n<'ctx> {}
        };
    }
    val!(InstructionValue);
    val!(FunctionValue);
    val!(GlobalValue);
    val!(PhiValue);
    val!(CallSiteValue);
    basic_val!(IntValue, IntType);
    basic_val!(FloatValue, FloatType);
    basic_val!(PointerValue, PointerType);
    basic_val!(ArrayValue, ArrayType);
    basic_val!(StructValue, StructType);
    basic_val!(VectorValue, VectorType);
    impl<'ctx> AnyValue<'ctx> for InstructionValue<'ctx> {}
    impl<'ctx> AnyValue<'ctx> for FunctionValue<'ctx> {}
    impl<'ctx> AnyValue<'ctx> for GlobalValue<'ctx> {}
    pub trait AnyValue<'ctx>: AsValueRef + std::fmt::Debug {}
    pub trait BasicValue<'ctx>: AnyValue<'ctx> {
        fn as_basic_value_enum(&self) -> BasicValueEnum<'ctx> { unsafe { BasicValueEnum::wrap(self.as_value_ref()) } }
        fn as_instruction_value(&self) -> Option<InstructionValue<'ctx>> { unsafe { if LLVMIsAInstruction(self.as_value_ref()).is_null() { None } else { Some(InstructionValue::wrap(self.as_value_ref())) } } }
        fn set_name(&self, n: &str) { unsafe { LLVMSetValueName2(self.as_value_ref(), n.as_ptr() as *const _, n.len()) } }
    }
    pub trait IntMathValue<'ctx>: BasicValue<'ctx> + Copy { type T; unsafe fn new(r: Ref) -> Self; }
    impl<'ctx> IntMathValue<'ctx> for IntValue<'ctx> { type T = IntType<'ctx>; unsafe fn new(r: Ref) -> Self { IntValue::wrap(r) } }
    impl<'ctx> IntValue<'ctx> {
        pub fn is_constant_int(self) -> bool { unsafe { !LLVMIsAConstantInt(self.0).is_null() } }
        pub fn get_zero_extended_constant(self) -> Option<u64> { if !self.is_constant_int() || self.get_type().get_bit_width() > 64 { None } else { unsafe { Some(LLVMConstIntGetZExtValue(self.0)) } } }
        pub fn get_sign_extended_constant(self) -> Option<i64> { if !self.is_constant_int() || self.get_type().get_bit_width() > 64 { None } else { unsafe { Some(LLVMConstIntGetSExtValue(self.0)) } } }
    }
    impl<'ctx> InstructionValue<'ctx> {
        pub fn get_parent(self) -> Option<BasicBlock<'ctx>> { unsafe { BasicBlock::opt(LLVMGetInstructionParent(self.0)) } }
        pub fn get_next_instruction(self) -> Option<Self> { unsafe { let r = LLVMGetNextInstruction(self.0); if r.is_null() { None } else { Some(Self::wrap(r)) } } }
        pub fn get_previous_instruction(self) -> Option<Self> { unsafe { let r = LLVMGetPreviousInstruction(self.0); if r.is_null() { None } else { Some(Self::wrap(r)) } } }
        pub fn erase_from_basic_block(self) { unsafe { LLVMInstructionEraseFromParent(self.0) } }
        pub fn set_alignment(&self, a: u32) -> Result<(), &'static str> { unsafe { LLVMSetAlignment(self.0, a) }; Ok(()) }
        pub fn set_volatile(self, v: bool) -> Result<(), &'static str> { unsafe { LLVMSetVolatile(self.0, v as i32) }; Ok(()) }
    }
    impl<'ctx> PhiValue<'ctx> {
        pub fn add_incoming(self, inc: &[(&dyn BasicValue<'ctx>, BasicBlock<'ctx>)]) {
            let v: Vec<Ref> = inc.iter().map(|x| x.0.as_value_ref()).collect();
            let b: Vec<Ref> = inc.iter().map(|x| x.1 .0).collect();
            unsafe { LLVMAddIncoming(self.0, v.as_ptr(), b.as_ptr(), v.len() as u32) }
        }
        pub fn as_basic_value(self) -> BasicValueEnum<'ctx> { unsafe { BasicValueEnum::wrap(self.0) } }
    }
    impl<'ctx> CallSiteValue<'ctx> {
        pub fn try_as_basic_value(self) -> either::Either<BasicValueEnum<'ctx>, InstructionValue<'ctx>> {
            unsafe {
                if LLVMGetTypeKind(LLVMTypeOf(self.0)) == 0 { either::Either::Right(InstructionValue::wrap(self.0)) } else { either::Either::Left(BasicValueEnum::wrap(self.0)) }
            }
        }
        pub fn set_tail_call(self, b: bool) { unsafe { LLVMSetTailCall(self.0, b as i32) } }
        pub fn set_call_convention(self, c: u32) { unsafe { LLVMSetInstructionCallConv(self.0, c) } }
    }
    impl<'ctx> FunctionValue<'ctx> {
        pub fn get_type(self) -> FunctionType<'ctx> { unsafe { FunctionType::wrap(LLVMGlobalGetValueType(self.0)) } }
        pub fn count_params(self) -> u32 { unsafe { LLVMCountParams(self.0) } }
        pub fn get_nth_param(self, n: u32) -> Option<BasicValueEnum<'ctx>> { if n >= self.count_params() { None } else { unsafe { Some(BasicValueEnum::wrap(LLVMGetParam(self.0, n))) } } }
        pub fn get_first_param(self) -> Option<BasicValueEnum<'ctx>> { self.get_nth_param(0) }
        pub fn get_last_param(self) -> Option<BasicValueEnum<'ctx>> { let n = self.count_params(); if n == 0 { None } else { self.get_nth_param(n - 1) } }
        pub fn get_params(self) -> Vec<BasicValueEnum<'ctx>> { (0..self.count_params()).map(|i| self.get_nth_param(i).unwrap()).collect() }
        pub fn get_param_iter(self) -> std::vec::IntoIter<BasicValueEnum<'ctx>> { self.get_params().into_iter() }
        pub fn count_basic_blocks(self) -> u32 { unsafe { LLVMCountBasicBlocks(self.0) } }
        pub fn get_first_basic_block(self) -> Option<BasicBlock<'ctx>> { unsafe { BasicBlock::opt(LLVMGetFirstBasicBlock(self.0)) } }
        pub fn get_last_basic_block(self) -> Option<BasicBlock<'ctx>> { unsafe { BasicBlock::opt(LLVMGetLastBasicBlock(self.0)) } }
        pub fn get_basic_blocks(self) -> Vec<BasicBlock<'ctx>> { let mut v = vec![]; let mut c = self.get_first_basic_block(); while let Some(b) = c { v.push(b); c = b.get_next_basic_block(); } v }
        pub fn get_next_function(self) -> Option<Self> { unsafe { let r = LLVMGetNextFunction(self.0); if r.is_null() { None } else { Some(Self::wrap(r)) } } }
        pub fn set_linkage(self, l: Linkage) { unsafe { LLVMSetLinkage(self.0, l as i32) } }
        pub fn get_linkage(self) -> i32 { unsafe { LLVMGetLinkage(self.0) } }
        pub fn verify(self, _print: bool) -> bool { unsafe { LLVMVerifyFunction(self.0, 2) == 0 } }
        pub unsafe fn delete(self) { LLVMDeleteFunction(self.0) }
        pub fn add_attribute(self, l: attributes::AttributeLoc, a: attributes::Attribute) { unsafe { LLVMAddAttributeAtIndex(self.0, l.idx(), a.0) } }
        pub fn remove_enum_attribute(self, l: attributes::AttributeLoc, k: u32) { unsafe { LLVMRemoveEnumAttributeAtIndex(self.0, l.idx(), k) } }
        pub fn as_global_value(self) -> GlobalValue<'ctx> { unsafe { GlobalValue::wrap(self.0) } }
        pub fn set_call_conventions(self, c: u32) { unsafe { LLVMSetFunctionCallConv(self.0, c) } }
    }
    #[derive(Clone, Copy, Debug, PartialEq, Eq)]
    pub enum UnnamedAddress { None, Local, Global }
    impl<'ctx> GlobalValue<'ctx> {
        pub fn as_pointer_value(self) -> PointerValue<'ctx> { unsafe { PointerValue::wrap(self.0) } }
        pub fn set_initializer(self, v: &dyn BasicValue<'ctx>) { unsafe { LLVMSetInitializer(self.0, v.as_value_ref()) } }
        pub fn get_initializer(self) -> Option<BasicValueEnum<'ctx>> { unsafe { let r = LLVMGetInitializer(self.0); if r.is_null() { None } else { Some(BasicValueEnum::wrap(r)) } } }
        pub fn set_constant(self, b: bool) { unsafe { LLVMSetGlobalConstant(self.0, b as i32) } }
        pub fn is_constant(self) -> bool { unsafe { LLVMIsGlobalConstant(self.0) != 0 } }
        pub fn set_linkage(self, l: Linkage) { unsafe { LLVMSetLinkage(self.0, l as i32) } }
        pub fn set_alignment(self, a: u32) { unsafe { LLVMSetAlignment(self.0, a) } }
        pub fn set_unnamed_address(self, a: UnnamedAddress) { unsafe { LLVMSetUnnamedAddress(self.0, a as i32) } }
        pub fn set_unnamed_addr(self, b: bool) { unsafe { LLVMSetUnnamedAddress(self.0, if b { 2 } else { 0 }) } }
        pub fn set_visibility(self, v: GlobalVisibility) { unsafe { LLVMSetVisibility(self.0, v as i32) } }
        pub fn set_section(self, s: Option<&str>) { let c = cs(s.unwrap_or("")); unsafe { LLVMSetSection(self.0, c.as_ptr()) } }
        pub fn is_declaration(self) -> bool { unsafe { LLVMIsDeclaration(self.0) != 0 } }
        pub fn get_value_type(self) -> BasicTypeEnum<'ctx> { unsafe { BasicTypeEnum::wrap(LLVMGlobalGetValueType(self.0)) } }
        pub fn get_next_global(self) -> Option<Self> { unsafe { let r = LLVMGetNextGlobal(self.0); if r.is_null() { None } else { Some(Self::wrap(r)) } } }
        pub unsafe fn delete(self) { LLVMDeleteGlobal(self.0) }
    }
    macro_rules! venum {
        ($n:ident) => {
            #[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
            pub enum $n<'ctx> {
                ArrayValue(ArrayValue<'ctx>), IntValue(IntValue<'ctx>), FloatValue(FloatValue<'ctx>),
                PointerValue(PointerValue<'ctx>), StructValue(StructValue<'ctx>), VectorValue(VectorValue<'ctx>),
            }
            impl<'ctx> $n<'ctx> {
                pub(crate) unsafe fn wrap(r: Ref) -> Self {
                    match LLVMGetTypeKind(LLVMTypeOf(r)) {
                        1..=6 => $n::FloatValue(FloatValue::wrap(r)),
                        8 => $n::IntValue(IntValue::wrap(r)),
                        10 => $n::StructValue(StructValue::wrap(r)),
                        11 => $n::ArrayValue(ArrayValue::wrap(r)),
                        12 => $n::PointerValue(PointerValue::wrap(r)),
                        13 => $n::VectorValue(VectorValue::wrap(r)),
                        k => unreachable!("not a basic value: kind {k}"),
                    }
                }
                pub fn is_array_value(self) -> bool { matches!(self, $n::ArrayValue(_)) }
                pub fn is_int_value(self) -> bool { matches!(self, $n::IntValue(_)) }
                pub fn is_float_value(self) -> bool { matches!(self, $n::FloatValue(_)) }
                pub fn is_pointer_value(self) -> bool { matches!(self, $n::PointerValue(_)) }
                pub fn is_struct_value(self) -> bool { matches!(self, $n::StructValue(_)) }
                pub fn is_vector_value(self) -> bool { matches!(self, $n::VectorValue(_)) }
                pub fn into_array_value(self) -> ArrayValue<'ctx> { if let $n::ArrayValue(t) = self { t } else { panic!("Found {:?} but expected the ArrayValue variant", self) } }
                pub fn into_int_value(self) -> IntValue<'ctx> { if let $n::IntValue(t) = self { t } else { panic!("Found {:?} but expected the IntValue variant", self) } }
                pub fn into_float_value(self) -> FloatValue<'ctx> { if let $n::FloatValue(t) = self { t } else { panic!("Found {:?} but expected the FloatValue variant", self) } }
                pub fn into_pointer_value(self) -> PointerValue<'ctx> { if let $n::PointerValue(t) = self { t } else { panic!("Found {:?} but expected PointerValue variant", self) } }
                pub fn into_struct_value(self) -> StructValue<'ctx> { if let $n::StructValue(t) = self { t } else { panic!("Found {:?} but expected StructValue variant", self) } }
                pub fn into_vector_value(self) -> VectorValue<'ctx> { if let $n::VectorValue(t) = self { t } else { panic!("Found {:?} but expected VectorValue variant", self) } }
            }
            unsafe impl<'ctx> AsValueRef for $n<'ctx> {
                fn as_value_ref(&self) -> Ref { match self { $n::ArrayValue(t) => t.0, $n::IntValue(t) => t.0, $n::FloatValue(t) => t.0, $n::PointerValue(t) => t.0, $n::StructValue(t) => t.0, $n::VectorValue(t) => t.0 } }
            }
            impl<'ctx> From<ArrayValue<'ctx>> for $n<'ctx> { fn from(t: ArrayValue<'ctx>) -> Self { $n::ArrayValue(t) } }
            impl<'ctx> From<IntValue<'ctx>> for $n<'ctx> { fn from(t: IntValue<'ctx>) -> Self { $n::IntValue(t) } }
            impl<'ctx> From<FloatValue<'ctx>> for $n<'ctx> { fn from(t: FloatValue<'ctx>) -> Self { $n::FloatValue(t) } }
            impl<'ctx> From<PointerValue<'ctx>> for $n<'ctx> { fn from(t: PointerValue<'ctx>) -> Self { $n::PointerValue(t) } }
            impl<'ctx> From<StructValue<'ctx>> for $n<'ctx> { fn from(t: StructValue<'ctx>) -> Self { $n::StructValue(t) } }
            impl<'ctx> From<VectorValue<'ctx>> for $n<'ctx> { fn from(t: VectorValue<'ctx>) -> Self { $n::VectorValue(t) } }
            impl<'ctx> std::fmt::Display for $n<'ctx> { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { unsafe { f.write_str(&take(LLVMPrintValueToString(self.as_value_ref()))) } } }
        };
    }
    venum!(BasicValueEnum);
    venum!(BasicMetadataValueEnum);
    impl<'ctx> AnyValue<'ctx> for BasicValueEnum<'ctx> {}
    impl<'ctx> BasicValue<'ctx> for BasicValueEnum<'ctx> {}
    impl<'ctx> BasicValueEnum<'ctx> {
        pub fn get_type(&self) -> BasicTypeEnum<'ctx> { unsafe { BasicTypeEnum::wrap(LLVMTypeOf(self.as_value_ref())) } }
        pub fn set_name(&self, n: &str) { unsafe { LLVMSetValueName2(self.as_value_ref(), n.as_ptr() as *const _, n.len()) } }
    }
    impl<'ctx> From<BasicValueEnum<'ctx>> for BasicMetadataValueEnum<'ctx> { fn from(t: BasicValueEnum<'ctx>) -> Self { unsafe { BasicMetadataValueEnum::wrap(t.as_value_ref()) } } }
    pub trait AggregateValue<'ctx>: BasicValue<'ctx> {}
    impl<'ctx> AggregateValue<'ctx> for StructValue<'ctx> {}
    impl<'ctx> AggregateValue<'ctx> for ArrayValue<'ctx> {}
}

pub mod basic_block {
    use super::*;
    use crate::values::*;
    #[derive(Clone, Copy, PartialEq, Eq, Hash)]
    pub struct BasicBlock<'ctx>(pub(crate) Ref, PhantomData<&'ctx ()>);
    impl<'ctx> std::fmt::Debug for BasicBlock<'ctx> { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { write!(f, "BasicBlock({:?})", self.get_name()) } }
    impl<'ctx> BasicBlock<'ctx> {
        pub(crate) unsafe fn wrap(r: Ref) -> Self { assert!(!r.is_null()); BasicBlock(r, PhantomData) }
        pub(crate) unsafe fn opt(r: Ref) -> Option<Self> { if r.is_null() { None } else { Some(Self::wrap(r)) } }
        pub fn get_parent(self) -> Option<FunctionValue<'ctx>> { unsafe { let r = LLVMGetBasicBlockParent(self.0); if r.is_null() { None } else { Some(FunctionValue::wrap(r)) } } }
        pub fn get_next_basic_block(self) -> Option<Self> { unsafe { Self::opt(LLVMGetNextBasicBlock(self.0)) } }
        pub fn get_previous_basic_block(self) -> Option<Self> { unsafe { Self::opt(LLVMGetPreviousBasicBlock(self.0)) } }
        pub fn get_terminator(self) -> Option<InstructionValue<'ctx>> { unsafe { let r = LLVMGetBasicBlockTerminator(self.0); if r.is_null() { None } else { Some(InstructionValue::wrap(r)) } } }
        pub fn get_first_instruction(self) -> Option<InstructionValue<'ctx>> { unsafe { let r = LLVMGetFirstInstruction(self.0); if r.is_null() { None } else { Some(InstructionValue::wrap(r)) } } }
        pub fn get_last_instruction(self) -> Option<InstructionValue<'ctx>> { unsafe { let r = LLVMGetLastInstruction(self.0); if r.is_null() { None } else { Some(InstructionValue::wrap(r)) } } }
        pub fn get_name(&self) -> &CStr { unsafe { CStr::from_ptr(LLVMGetBasicBlockName(self.0)) } }
        pub fn move_after(self, o: BasicBlock<'ctx>) -> Result<(), ()> { unsafe { LLVMMoveBasicBlockAfter(self.0, o.0) }; Ok(()) }
        pub fn move_before(self, o: BasicBlock<'ctx>) -> Result<(), ()> { unsafe { LLVMMoveBasicBlockBefore(self.0, o.0) }; Ok(()) }
        pub unsafe fn delete(self) -> Result<(), ()> { LLVMDeleteBasicBlock(self.0); Ok(()) }
        pub fn remove_from_function(self) -> Result<(), ()> { unsafe { LLVMRemoveBasicBlockFromParent(self.0) }; Ok(()) }
    }
}

pub mod builder {
    use super::*;
    use crate::{basic_block::BasicBlock, types::*, values::*};
    #[derive(Clone, Copy, Debug, PartialEq, Eq)]
    pub enum BuilderError { UnsetPosition, AlignmentError(&'static str), ExtractOutOfRange, BitwidthError(&'static str), PointeeTypeMismatch(&'static str), ValueTypeMismatch(&'static str), OrderingError(&'static str), GEPPointee, GEPIndex }
    impl std::fmt::Display for BuilderError {
        fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
            f.write_str(match self {
                BuilderError::UnsetPosition => "Builder position is not set",
                BuilderError::GEPPointee => "GEP pointee is not a struct",
                BuilderError::GEPIndex => "GEP index out of range",
                BuilderError::ExtractOutOfRange => "Aggregate extract index out of range",
                BuilderError::AlignmentError(s) | BuilderError::BitwidthError(s) | BuilderError::PointeeTypeMismatch(s) | BuilderError::ValueTypeMismatch(s) | BuilderError::OrderingError(s) => s,
            })
        }
    }
    impl std::error::Error for BuilderError {}
    type R<T> = Result<T, BuilderError>;
    #[derive(Debug)]
    pub struct Builder<'ctx>(pub(crate) Ref, PhantomData<&'ctx ()>);
    impl<'ctx> Drop for Builder<'ctx> { fn drop(&mut self) { unsafe { LLVMDisposeBuilder(self.0) } } }
    macro_rules! bin { ($($f:ident => $l:ident),* $(,)?) => { $(pub fn $f(&self, l: IntValue<'ctx>, r: IntValue<'ctx>, n: &str) -> R<IntValue<'ctx>> { self.pos()?; unsafe { Ok(IntValue::wrap($l(self.0, l.0, r.0, cs(n).as_ptr()))) } })* } }
    macro_rules! cast { ($($f:ident => $l:ident),* $(,)?) => { $(pub fn $f(&self, v: IntValue<'ctx>, t: IntType<'ctx>, n: &str) -> R<IntValue<'ctx>> { self.pos()?; unsafe { Ok(IntValue::wrap($l(self.0, v.0, t.0, cs(n).as_ptr()))) } })* } }
    impl<'ctx> Builder<'ctx> {
        pub(crate) unsafe fn wrap(r: Ref) -> Self { Builder(r, PhantomData) }
        fn pos(&self) -> R<()> { unsafe { if LLVMGetInsertBlock(self.0).is_null() { Err(BuilderError::UnsetPosition) } else { Ok(()) } } }
        pub fn position_at_end(&self, b: BasicBlock<'ctx>) { unsafe { LLVMPositionBuilderAtEnd(self.0, b.0) } }
        pub fn position_before(&self, i: &InstructionValue<'ctx>) { unsafe { LLVMPositionBuilderBefore(self.0, i.0) } }
        pub fn position_at(&self, b: BasicBlock<'ctx>, i: &InstructionValue<'ctx>) { unsafe { LLVMPositionBuilder(self.0, b.0, i.0) } }
        pub fn get_insert_block(&self) -> Option<BasicBlock<'ctx>> { unsafe { BasicBlock::opt(LLVMGetInsertBlock(self.0)) } }
        pub fn clear_insertion_position(&self) { unsafe { LLVMClearInsertionPosition(self.0) } }
        pub fn build_return(&self, v: Option<&dyn BasicValue<'ctx>>) -> R<InstructionValue<'ctx>> {
            self.pos()?;
            unsafe { Ok(InstructionValue::wrap(match v { Some(v) => LLVMBuildRet(self.0, v.as_value_ref()), None => LLVMBuildRetVoid(self.0) })) }
        }
        pub fn build_aggregate_return(&self, vs: &[BasicValueEnum<'ctx>]) -> R<InstructionValue<'ctx>> {
            self.pos()?;
            let v: Vec<Ref> = vs.iter().map(|x| x.as_value_ref()).collect();
            unsafe { Ok(InstructionValue::wrap(LLVMBuildAggregateRet(self.0, v.as_ptr(), v.len() as u32))) }
        }
        pub fn build_call(&self, f: FunctionValue<'ctx>, args: &[BasicMetadataValueEnum<'ctx>], n: &str) -> R<CallSiteValue<'ctx>> {
            self.pos()?;
            let v: Vec<Ref> = args.iter().map(|x| x.as_value_ref()).collect();
            let nm = if f.get_type().get_return_type().is_none() { cs("") } else { cs(n) };
            unsafe { Ok(CallSiteValue::wrap(LLVMBuildCall2(self.0, f.get_type().0, f.0, v.as_ptr(), v.len() as u32, nm.as_ptr()))) }
        }
        pub fn build_direct_call(&self, f: FunctionValue<'ctx>, args: &[BasicMetadataValueEnum<'ctx>], n: &str) -> R<CallSiteValue<'ctx>> { self.build_call(f, args, n) }
        pub fn build_alloca<T: BasicType<'ctx>>(&self, t: T, n: &str) -> R<PointerValue<'ctx>> { self.pos()?; unsafe { Ok(PointerValue::wrap(LLVMBuildAlloca(self.0, t.as_type_ref(), cs(n).as_ptr()))) } }
        pub fn build_array_alloca<T: BasicType<'ctx>>(&self, t: T, s: IntValue<'ctx>, n: &str) -> R<PointerValue<'ctx>> { self.pos()?; unsafe { Ok(PointerValue::wrap(LLVMBuildArrayAlloca(self.0, t.as_type_ref(), s.0, cs(n).as_ptr()))) } }
        pub fn build_load<T: BasicType<'ctx>>(&self, t: T, p: PointerValue<'ctx>, n: &str) -> R<BasicValueEnum<'ctx>> { self.pos()?; unsafe { Ok(BasicValueEnum::wrap(LLVMBuildLoad2(self.0, t.as_type_ref(), p.0, cs(n).as_ptr()))) } }
        pub fn build_store<V: BasicValue<'ctx>>(&self, p: PointerValue<'ctx>, v: V) -> R<InstructionValue<'ctx>> { self.pos()?; unsafe { Ok(InstructionValue::wrap(LLVMBuildStore(self.0, v.as_value_ref(), p.0))) } }
        pub unsafe fn build_gep<T: BasicType<'ctx>>(&self, t: T, p: PointerValue<'ctx>, i: &[IntValue<'ctx>], n: &str) -> R<PointerValue<'ctx>> {
            self.pos()?;
            let v: Vec<Ref> = i.iter().map(|x| x.0).collect();
            Ok(PointerValue::wrap(LLVMBuildGEP2(self.0, t.as_type_ref(), p.0, v.as_ptr(), v.len() as u32, cs(n).as_ptr())))
        }
        pub unsafe fn build_in_bounds_gep<T: BasicType<'ctx>>(&self, t: T, p: PointerValue<'ctx>, i: &[IntValue<'ctx>], n: &str) -> R<PointerValue<'ctx>> {
            self.pos()?;
            let v: Vec<Ref> = i.iter().map(|x| x.0).collect();
            Ok(PointerValue::wrap(LLVMBuildInBoundsGEP2(self.0, t.as_type_ref(), p.0, v.as_ptr(), v.len() as u32, cs(n).as_ptr())))
        }
        pub fn build_struct_gep<T: BasicType<'ctx>>(&self, t: T, p: PointerValue<'ctx>, i: u32, n: &str) -> R<PointerValue<'ctx>> {
            self.pos()?;
            let bt = t.as_basic_type_enum();
            if !bt.is_struct_type() { return Err(BuilderError::GEPPointee); }
            if i >= bt.into_struct_type().count_fields() { return Err(BuilderError::GEPIndex); }
            unsafe { Ok(PointerValue::wrap(LLVMBuildStructGEP2(self.0, t.as_type_ref(), p.0, i, cs(n).as_ptr()))) }
        }
        pub fn build_memcpy(&self, d: PointerValue<'ctx>, da: u32, s: PointerValue<'ctx>, sa: u32, n: IntValue<'ctx>) -> R<PointerValue<'ctx>> { self.pos()?; unsafe { Ok(PointerValue::wrap(LLVMBuildMemCpy(self.0, d.0, da, s.0, sa, n.0))) } }
        pub fn build_memmove(&self, d: PointerValue<'ctx>, da: u32, s: PointerValue<'ctx>, sa: u32, n: IntValue<'ctx>) -> R<PointerValue<'ctx>> { self.pos()?; unsafe { Ok(PointerValue::wrap(LLVMBuildMemMove(self.0, d.0, da, s.0, sa, n.0))) } }
        pub fn build_memset(&self, d: PointerValue<'ctx>, da: u32, v: IntValue<'ctx>, n: IntValue<'ctx>) -> R<PointerValue<'ctx>> { self.pos()?; unsafe { Ok(PointerValue::wrap(LLVMBuildMemSet(self.0, d.0, v.0, n.0, da))) } }
        pub fn build_unconditional_branch(&self, b: BasicBlock<'ctx>) -> R<InstructionValue<'ctx>> { self.pos()?; unsafe { Ok(InstructionValue::wrap(LLVMBuildBr(self.0, b.0))) } }
        pub fn build_conditional_branch(&self, c: IntValue<'ctx>, t: BasicBlock<'ctx>, e: BasicBlock<'ctx>) -> R<InstructionValue<'ctx>> { self.pos()?; unsafe { Ok(InstructionValue::wrap(LLVMBuildCondBr(self.0, c.0, t.0, e.0))) } }
        pub fn build_switch(&self, v: IntValue<'ctx>, e: BasicBlock<'ctx>, cases: &[(IntValue<'ctx>, BasicBlock<'ctx>)]) -> R<InstructionValue<'ctx>> {
            self.pos()?;
            unsafe {
                let s = LLVMBuildSwitch(self.0, v.0, e.0, cases.len() as u32);
                for (v, b) in cases { LLVMAddCase(s, v.0, b.0); }
                Ok(InstructionValue::wrap(s))
            }
        }
        pub fn build_unreachable(&self) -> R<InstructionValue<'ctx>> { self.pos()?; unsafe { Ok(InstructionValue::wrap(LLVMBuildUnreachable(self.0))) } }
        pub fn build_phi<T: BasicType<'ctx>>(&self, t: T, n: &str) -> R<PhiValue<'ctx>> { self.pos()?; unsafe { Ok(PhiValue::wrap(LLVMBuildPhi(self.0, t.as_type_ref(), cs(n).as_ptr()))) } }
        pub fn build_select<A: BasicValue<'ctx>>(&self, c: IntValue<'ctx>, t: A, e: A, n: &str) -> R<BasicValueEnum<'ctx>> { self.pos()?; unsafe { Ok(BasicValueEnum::wrap(LLVMBuildSelect(self.0, c.0, t.as_value_ref(), e.as_value_ref(), cs(n).as_ptr()))) } }
        pub fn build_extract_value<A: AggregateValue<'ctx>>(&self, a: A, i: u32, n: &str) -> R<BasicValueEnum<'ctx>> { self.pos()?; unsafe { Ok(BasicValueEnum::wrap(LLVMBuildExtractValue(self.0, a.as_value_ref(), i, cs(n).as_ptr()))) } }
        pub fn build_insert_value<A: AggregateValue<'ctx>, V: BasicValue<'ctx>>(&self, a: A, v: V, i: u32, n: &str) -> R<BasicValueEnum<'ctx>> { self.pos()?; unsafe { Ok(BasicValueEnum::wrap(LLVMBuildInsertValue(self.0, a.as_value_ref(), v.as_value_ref(), i, cs(n).as_ptr()))) } }
        pub fn build_int_compare(&self, p: IntPredicate, l: IntValue<'ctx>, r: IntValue<'ctx>, n: &str) -> R<IntValue<'ctx>> { self.pos()?; unsafe { Ok(IntValue::wrap(LLVMBuildICmp(self.0, p as i32, l.0, r.0, cs(n).as_ptr()))) } }
        bin!(
            build_int_add => LLVMBuildAdd, build_int_nsw_add => LLVMBuildNSWAdd, build_int_nuw_add => LLVMBuildNUWAdd,
            build_int_sub => LLVMBuildSub, build_int_nsw_sub => LLVMBuildNSWSub, build_int_nuw_sub => LLVMBuildNUWSub,
            build_int_mul => LLVMBuildMul, build_int_nsw_mul => LLVMBuildNSWMul, build_int_nuw_mul => LLVMBuildNUWMul,
            build_int_unsigned_div => LLVMBuildUDiv, build_int_signed_div => LLVMBuildSDiv,
            build_int_exact_signed_div => LLVMBuildExactSDiv, build_int_exact_unsigned_div => LLVMBuildExactUDiv,
            build_int_unsigned_rem => LLVMBuildURem, build_int_signed_rem => LLVMBuildSRem,
            build_and => LLVMBuildAnd, build_or => LLVMBuildOr, build_xor => LLVMBuildXor, build_left_shift => LLVMBuildShl,
        );
        pub fn build_right_shift(&self, l: IntValue<'ctx>, r: IntValue<'ctx>, sign: bool, n: &str) -> R<IntValue<'ctx>> {
            self.pos()?;
            unsafe { Ok(IntValue::wrap(if sign { LLVMBuildAShr(self.0, l.0, r.0, cs(n).as_ptr()) } else { LLVMBuildLShr(self.0, l.0, r.0, cs(n).as_ptr()) })) }
        }
        pub fn build_not(&self, v: IntValue<'ctx>, n: &str) -> R<IntValue<'ctx>> { self.pos()?; unsafe { Ok(IntValue::wrap(LLVMBuildNot(self.0, v.0, cs(n).as_ptr()))) } }
        pub fn build_int_neg(&self, v: IntValue<'ctx>, n: &str) -> R<IntValue<'ctx>> { self.pos()?; unsafe { Ok(IntValue::wrap(LLVMBuildNeg(self.0, v.0, cs(n).as_ptr()))) } }
        cast!(
            build_int_cast => LLVMBuildIntCast, build_int_truncate => LLVMBuildTrunc, build_int_truncate_or_bit_cast => LLVMBuildTruncOrBitCast,
            build_int_z_extend => LLVMBuildZExt, build_int_z_extend_or_bit_cast => LLVMBuildZExtOrBitCast,
            build_int_s_extend => LLVMBuildSExt, build_int_s_extend_or_bit_cast => LLVMBuildSExtOrBitCast,
        );
        pub fn build_int_cast_sign_flag(&self, v: IntValue<'ctx>, t: IntType<'ctx>, s: bool, n: &str) -> R<IntValue<'ctx>> { self.pos()?; unsafe { Ok(IntValue::wrap(LLVMBuildIntCast2(self.0, v.0, t.0, s as i32, cs(n).as_ptr()))) } }
        pub fn build_bit_cast<V: BasicValue<'ctx>, T: BasicType<'ctx>>(&self, v: V, t: T, n: &str) -> R<BasicValueEnum<'ctx>> { self.pos()?; unsafe { Ok(BasicValueEnum::wrap(LLVMBuildBitCast(self.0, v.as_value_ref(), t.as_type_ref(), cs(n).as_ptr()))) } }
        pub fn build_pointer_cast(&self, v: PointerValue<'ctx>, t: PointerType<'ctx>, n: &str) -> R<PointerValue<'ctx>> { self.pos()?; unsafe { Ok(PointerValue::wrap(LLVMBuildPointerCast(self.0, v.0, t.0, cs(n).as_ptr()))) } }
        pub fn build_ptr_to_int(&self, v: PointerValue<'ctx>, t: IntType<'ctx>, n: &str) -> R<IntValue<'ctx>> { self.pos()?; unsafe { Ok(IntValue::wrap(LLVMBuildPtrToInt(self.0, v.0, t.0, cs(n).as_ptr()))) } }
        pub fn build_int_to_ptr(&self, v: IntValue<'ctx>, t: PointerType<'ctx>, n: &str) -> R<PointerValue<'ctx>> { self.pos()?; unsafe { Ok(PointerValue::wrap(LLVMBuildIntToPtr(self.0, v.0, t.0, cs(n).as_ptr()))) } }
        pub fn build_is_null(&self, v: PointerValue<'ctx>, n: &str) -> R<IntValue<'ctx>> { self.pos()?; unsafe { Ok(IntValue::wrap(LLVMBuildIsNull(self.0, v.0, cs(n).as_ptr()))) } }
        pub fn build_is_not_null(&self, v: PointerValue<'ctx>, n: &str) -> R<IntValue<'ctx>> { self.pos()?; unsafe { Ok(IntValue::wrap(LLVMBuildIsNotNull(self.0, v.0, cs(n).as_ptr()))) } }
    }
}

pub mod module {
    use super::*;
    use crate::{context::Context, memory_buffer::MemoryBuffer, types::*, values::*};
    #[derive(Clone, Copy, Debug, PartialEq, Eq)]
    pub enum Linkage {
        External = 0, AvailableExternally = 1, LinkOnceAny = 2, LinkOnceODR = 3, LinkOnceODRAutoHide = 4, WeakAny = 5, WeakODR = 6,
        Appending = 7, Internal = 8, Private = 9, DLLImport = 10, DLLExport = 11, ExternalWeak = 12, Ghost = 13, Common = 14,
        LinkerPrivate = 15, LinkerPrivateWeak = 16,
    }
    #[derive(Debug)]
    pub struct Module<'ctx> { pub(crate) m: Ref, pub(crate) c: Ref, p: PhantomData<&'ctx ()> }
    impl<'ctx> Drop for Module<'ctx> { fn drop(&mut self) { unsafe { LLVMDisposeModule(self.m) } } }
    impl<'ctx> Clone for Module<'ctx> { fn clone(&self) -> Self { unsafe { Module::wrap(LLVMCloneModule(self.m), self.c) } } }
    impl<'ctx> Module<'ctx> {
        pub(crate) unsafe fn wrap(m: Ref, c: Ref) -> Self { assert!(!m.is_null()); Module { m, c, p: PhantomData } }
        pub fn parse_bitcode_from_buffer(b: &MemoryBuffer, ctx: &'ctx Context) -> Result<Self, support::LLVMString> {
            unsafe {
                let mut m = std::ptr::null_mut();
                if LLVMParseBitcodeInContext2(ctx.0, b.0, &mut m) != 0 { return Err(support::LLVMString("invalid bitcode".into())); }
                Ok(Module::wrap(m, ctx.0))
            }
        }
        pub fn link_in_module(&self, o: Module<'ctx>) -> Result<(), support::LLVMString> {
            unsafe {
                let r = LLVMLinkModules2(self.m, o.m);
                std::mem::forget(o);
                if r != 0 { Err(support::LLVMString("linking modules failed".into())) } else { Ok(()) }
            }
        }
        pub fn get_function(&self, n: &str) -> Option<FunctionValue<'ctx>> { unsafe { let r = LLVMGetNamedFunction(self.m, cs(n).as_ptr()); if r.is_null() { None } else { Some(FunctionValue::wrap(r)) } } }
        pub fn get_first_function(&self) -> Option<FunctionValue<'ctx>> { unsafe { let r = LLVMGetFirstFunction(self.m); if r.is_null() { None } else { Some(FunctionValue::wrap(r)) } } }
        pub fn get_functions(&self) -> std::vec::IntoIter<FunctionValue<'ctx>> { let mut v = vec![]; let mut c = self.get_first_function(); while let Some(f) = c { v.push(f); c = f.get_next_function(); } v.into_iter() }
        pub fn add_function(&self, n: &str, t: FunctionType<'ctx>, l: Option<Linkage>) -> FunctionValue<'ctx> {
            unsafe { let f = FunctionValue::wrap(LLVMAddFunction(self.m, cs(n).as_ptr(), t.0)); if let Some(l) = l { f.set_linkage(l); } f }
        }
        pub fn get_global(&self, n: &str) -> Option<GlobalValue<'ctx>> { unsafe { let r = LLVMGetNamedGlobal(self.m, cs(n).as_ptr()); if r.is_null() { None } else { Some(GlobalValue::wrap(r)) } } }
        pub fn get_first_global(&self) -> Option<GlobalValue<'ctx>> { unsafe { let r = LLVMGetFirstGlobal(self.m); if r.is_null() { None } else { Some(GlobalValue::wrap(r)) } } }
        pub fn get_globals(&self) -> std::vec::IntoIter<GlobalValue<'ctx>> { let mut v = vec![]; let mut c = self.get_first_global(); while let Some(f) = c { v.push(f); c = f.get_next_global(); } v.into_iter() }
        pub fn add_global<T: BasicType<'ctx>>(&self, t: T, a: Option<AddressSpace>, n: &str) -> GlobalValue<'ctx> {
            unsafe { GlobalValue::wrap(match a { Some(a) => LLVMAddGlobalInAddressSpace(self.m, t.as_type_ref(), cs(n).as_ptr(), a.0), None => LLVMAddGlobal(self.m, t.as_type_ref(), cs(n).as_ptr()) }) }
        }
        pub fn print_to_file<P: AsRef<std::path::Path>>(&self, p: P) -> Result<(), support::LLVMString> {
            unsafe {
                let mut e = std::ptr::null_mut();
                if LLVMPrintModuleToFile(self.m, cs(p.as_ref().to_str().unwrap()).as_ptr(), &mut e) != 0 { Err(take(e)) } else { Ok(()) }
            }
        }
        pub fn print_to_string(&self) -> support::LLVMString { unsafe { take(LLVMPrintModuleToString(self.m)) } }
        pub fn verify(&self) -> Result<(), support::LLVMString> {
            unsafe {
                let mut e = std::ptr::null_mut();
                let r = LLVMVerifyModule(self.m, 2, &mut e);
                let s = take(e);
                if r != 0 { Err(s) } else { Ok(()) }
            }
        }
        pub fn write_bitcode_to_path<P: AsRef<std::path::Path>>(&self, p: P) -> bool { unsafe { LLVMWriteBitcodeToFile(self.m, cs(p.as_ref().to_str().unwrap()).as_ptr()) == 0 } }
        pub fn set_triple(&self, t: &crate::targets::TargetTriple) { unsafe { LLVMSetTarget(self.m, cs(&t.0).as_ptr()) } }
        pub fn get_triple(&self) -> crate::targets::TargetTriple { unsafe { crate::targets::TargetTriple(CStr::from_ptr(LLVMGetTarget(self.m)).to_string_lossy().into_owned()) } }
        pub fn set_data_layout(&self, d: &str) { unsafe { LLVMSetDataLayout(self.m, cs(d).as_ptr()) } }
        pub fn set_name(&self, n: &str) { unsafe { LLVMSetModuleIdentifier(self.m, n.as_ptr() as *const _, n.len()) } }
    }
}

pub mod memory_buffer {
    use super::*;
    #[derive(Debug)]
    pub struct MemoryBuffer(pub(crate) Ref);
    impl MemoryBuffer {
        pub fn create_from_memory_range(i: &[u8], n: &str) -> Self { unsafe { MemoryBuffer(LLVMCreateMemoryBufferWithMemoryRange(i.as_ptr() as *const _, i.len(), cs(n).as_ptr(), 0)) } }
        pub fn create_from_memory_range_copy(i: &[u8], n: &str) -> Self { unsafe { MemoryBuffer(LLVMCreateMemoryBufferWithMemoryRangeCopy(i.as_ptr() as *const _, i.len(), cs(n).as_ptr())) } }
        pub fn as_slice(&self) -> &[u8] { unsafe { std::slice::from_raw_parts(LLVMGetBufferStart(self.0) as *const u8, LLVMGetBufferSize(self.0)) } }
        pub fn get_size(&self) -> usize { unsafe { LLVMGetBufferSize(self.0) } }
    }
    impl Drop for MemoryBuffer { fn drop(&mut self) { unsafe { LLVMDisposeMemoryBuffer(self.0) } } }
}

pub mod targets {
    use super::*;
    use crate::{memory_buffer::MemoryBuffer, module::Module};
    #[derive(Clone, Copy, Debug, PartialEq, Eq, Default)]
    pub enum CodeModel { #[default] Default, JITDefault, Small, Kernel, Medium, Large }
    #[derive(Clone, Copy, Debug, PartialEq, Eq, Default)]
    pub enum RelocMode { #[default] Default, Static, PIC, DynamicNoPic }
    #[derive(Clone, Copy, Debug, PartialEq, Eq)]
    pub enum FileType { Assembly, Object }
    #[derive(Clone, PartialEq, Eq, Debug)]
    pub struct TargetTriple(pub(crate) String);
    impl TargetTriple { pub fn create(t: &str) -> Self { TargetTriple(t.to_string()) } pub fn as_str(&self) -> &str { &self.0 } }
    impl std::fmt::Display for TargetTriple { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { f.write_str(&self.0) } }
    #[derive(Clone, Debug, PartialEq, Eq)]
    pub struct InitializationConfig { pub asm_parser: bool, pub asm_printer: bool, pub base: bool, pub disassembler: bool, pub info: bool, pub machine_code: bool }
    impl Default for InitializationConfig { fn default() -> Self { InitializationConfig { asm_parser: true, asm_printer: true, base: true, disassembler: true, info: true, machine_code: true } } }
    #[derive(Clone, Copy, Debug, PartialEq, Eq)]
    pub struct Target(Ref);
    impl Target {
        pub fn initialize_webassembly(c: &InitializationConfig) {
            unsafe {
                if c.base { LLVMInitializeWebAssemblyTarget(); }
                if c.info { LLVMInitializeWebAssemblyTargetInfo(); }
                if c.asm_printer { LLVMInitializeWebAssemblyAsmPrinter(); }
                if c.asm_parser { LLVMInitializeWebAssemblyAsmParser(); }
                if c.disassembler { LLVMInitializeWebAssemblyDisassembler(); }
                if c.machine_code { LLVMInitializeWebAssemblyTargetMC(); }
            }
        }
        pub fn from_name(n: &str) -> Option<Self> { unsafe { let r = LLVMGetTargetFromName(cs(n).as_ptr()); if r.is_null() { None } else { Some(Target(r)) } } }
        pub fn from_triple(t: &TargetTriple) -> Result<Self, support::LLVMString> {
            unsafe { let mut o = std::ptr::null_mut(); let mut e = std::ptr::null_mut(); if LLVMGetTargetFromTriple(cs(&t.0).as_ptr(), &mut o, &mut e) != 0 { Err(take(e)) } else { Ok(Target(o)) } }
        }
        pub fn create_target_machine(&self, t: &TargetTriple, cpu: &str, f: &str, l: OptimizationLevel, r: RelocMode, c: CodeModel) -> Option<TargetMachine> {
            unsafe { let m = LLVMCreateTargetMachine(self.0, cs(&t.0).as_ptr(), cs(cpu).as_ptr(), cs(f).as_ptr(), l as i32, r as i32, c as i32); if m.is_null() { None } else { Some(TargetMachine(m)) } }
        }
    }
    #[derive(Debug)]
    pub struct TargetMachine(Ref);
    impl Drop for TargetMachine { fn drop(&mut self) { unsafe { LLVMDisposeTargetMachine(self.0) } } }
    impl TargetMachine {
        pub fn write_to_memory_buffer(&self, m: &Module<'_>, k: FileType) -> Result<MemoryBuffer, support::LLVMString> {
            unsafe { let mut e = std::ptr::null_mut(); let mut o = std::ptr::null_mut(); if LLVMTargetMachineEmitToMemoryBuffer(self.0, m.m, k as i32, &mut e, &mut o) != 0 { Err(take(e)) } else { Ok(MemoryBuffer(o)) } }
        }
        pub fn write_to_file(&self, m: &Module<'_>, k: FileType, p: &std::path::Path) -> Result<(), support::LLVMString> {
            unsafe { let mut e = std::ptr::null_mut(); if LLVMTargetMachineEmitToFile(self.0, m.m, cs(p.to_str().unwrap()).as_ptr(), k as i32, &mut e) != 0 { Err(take(e)) } else { Ok(()) } }
        }
    }
}

pub mod passes {
    use super::*;
    use crate::{module::Module, values::FunctionValue};
    #[derive(Debug)]
    pub struct PassManagerBuilder(Ref);
    impl Drop for PassManagerBuilder { fn drop(&mut self) { unsafe { LLVMPassManagerBuilderDispose(self.0) } } }
    impl PassManagerBuilder {
        pub fn create() -> Self { unsafe { PassManagerBuilder(LLVMPassManagerBuilderCreate()) } }
        pub fn set_optimization_level(&self, l: OptimizationLevel) { unsafe { LLVMPassManagerBuilderSetOptLevel(self.0, l as u32) } }
        pub fn set_size_level(&self, l: u32) { unsafe { LLVMPassManagerBuilderSetSizeLevel(self.0, l) } }
        pub fn set_disable_unit_at_a_time(&self, b: bool) { unsafe { LLVMPassManagerBuilderSetDisableUnitAtATime(self.0, b as i32) } }
        pub fn set_disable_unroll_loops(&self, b: bool) { unsafe { LLVMPassManagerBuilderSetDisableUnrollLoops(self.0, b as i32) } }
        pub fn set_disable_simplify_lib_calls(&self, b: bool) { unsafe { LLVMPassManagerBuilderSetDisableSimplifyLibCalls(self.0, b as i32) } }
        pub fn set_inliner_with_threshold(&self, t: u32) { unsafe { LLVMPassManagerBuilderUseInlinerWithThreshold(self.0, t) } }
        pub fn populate_module_pass_manager(&self, p: &PassManager<Module>) { unsafe { LLVMPassManagerBuilderPopulateModulePassManager(self.0, p.0) } }
        pub fn populate_function_pass_manager(&self, p: &PassManager<FunctionValue>) { unsafe { LLVMPassManagerBuilderPopulateFunctionPassManager(self.0, p.0) } }
    }
    pub trait PassManagerSubType { type Input; unsafe fn create(i: &Self::Input) -> Ref; unsafe fn run(&self, p: Ref) -> bool; }
    impl<'ctx> PassManagerSubType for Module<'ctx> {
        type Input = ();
        unsafe fn create(_: &()) -> Ref { LLVMCreatePassManager() }
        unsafe fn run(&self, p: Ref) -> bool { LLVMRunPassManager(p, self.m) == 1 }
    }
    impl<'ctx> PassManagerSubType for FunctionValue<'ctx> {
        type Input = Module<'ctx>;
        unsafe fn create(m: &Module<'ctx>) -> Ref { LLVMCreateFunctionPassManagerForModule(m.m) }
        unsafe fn run(&self, p: Ref) -> bool { LLVMRunFunctionPassManager(p, self.0) == 1 }
    }
    #[derive(Debug)]
    pub struct PassManager<T>(pub(crate) Ref, PhantomData<T>);
    impl<T> Drop for PassManager<T> { fn drop(&mut self) { unsafe { LLVMDisposePassManager(self.0) } } }
    impl<T: PassManagerSubType> PassManager<T> {
        pub fn create<I: std::borrow::Borrow<T::Input>>(i: I) -> Self { unsafe { PassManager(T::create(i.borrow()), PhantomData) } }
        pub fn run_on(&self, i: &T) -> bool { unsafe { i.run(self.0) } }
    }
    macro_rules! add { ($($f:ident => $l:ident),* $(,)?) => { impl<T> PassManager<T> { $(pub fn $f(&self) { unsafe { $l(self.0) } })* } } }
    impl<'ctx> PassManager<FunctionValue<'ctx>> {
        pub fn initialize(&self) -> bool { unsafe { LLVMInitializeFunctionPassManager(self.0) == 1 } }
        pub fn finalize(&self) -> bool { unsafe { LLVMFinalizeFunctionPassManager(self.0) == 1 } }
    }
    add!(
        add_aggressive_dce_pass => LLVMAddAggressiveDCEPass, add_dce_pass => LLVMAddDCEPass, add_bit_tracking_dce_pass => LLVMAddBitTrackingDCEPass,
        add_alignment_from_assumptions_pass => LLVMAddAlignmentFromAssumptionsPass, add_cfg_simplification_pass => LLVMAddCFGSimplificationPass,
        add_dead_store_elimination_pass => LLVMAddDeadStoreEliminationPass, add_scalarizer_pass => LLVMAddScalarizerPass,
        add_merged_load_store_motion_pass => LLVMAddMergedLoadStoreMotionPass, add_gvn_pass => LLVMAddGVNPass, add_new_gvn_pass => LLVMAddNewGVNPass,
        add_ind_var_simplify_pass => LLVMAddIndVarSimplifyPass, add_instruction_combining_pass => LLVMAddInstructionCombiningPass,
        add_instruction_simplify_pass => LLVMAddInstructionSimplifyPass, add_jump_threading_pass => LLVMAddJumpThreadingPass, add_licm_pass => LLVMAddLICMPass,
        add_loop_deletion_pass => LLVMAddLoopDeletionPass, add_loop_idiom_pass => LLVMAddLoopIdiomPass, add_loop_rotate_pass => LLVMAddLoopRotatePass,
        add_loop_reroll_pass => LLVMAddLoopRerollPass, add_loop_unroll_pass => LLVMAddLoopUnrollPass, add_loop_unroll_and_jam_pass => LLVMAddLoopUnrollAndJamPass,
        add_memcpy_optimize_pass => LLVMAddMemCpyOptPass, add_partially_inline_lib_calls_pass => LLVMAddPartiallyInlineLibCallsPass,
        add_reassociate_pass => LLVMAddReassociatePass, add_sccp_pass => LLVMAddSCCPPass, add_scalar_repl_aggregates_pass => LLVMAddScalarReplAggregatesPass,
        add_scalar_repl_aggregates_pass_ssa => LLVMAddScalarReplAggregatesPassSSA, add_simplify_lib_calls_pass => LLVMAddSimplifyLibCallsPass,
        add_tail_call_elimination_pass => LLVMAddTailCallEliminationPass, add_demote_memory_to_register_pass => LLVMAddDemoteMemoryToRegisterPass,
        add_verifier_pass => LLVMAddVerifierPass, add_correlated_value_propagation_pass => LLVMAddCorrelatedValuePropagationPass,
        add_early_cse_pass => LLVMAddEarlyCSEPass, add_early_cse_mem_ssa_pass => LLVMAddEarlyCSEMemSSAPass, add_lower_expect_intrinsic_pass => LLVMAddLowerExpectIntrinsicPass,
        add_type_based_alias_analysis_pass => LLVMAddTypeBasedAliasAnalysisPass, add_scoped_no_alias_aa_pass => LLVMAddScopedNoAliasAAPass,
        add_basic_alias_analysis_pass => LLVMAddBasicAliasAnalysisPass, add_merge_functions_pass => LLVMAddMergeFunctionsPass,
        add_constant_merge_pass => LLVMAddConstantMergePass, add_dead_arg_elimination_pass => LLVMAddDeadArgEliminationPass,
        add_function_attrs_pass => LLVMAddFunctionAttrsPass, add_function_inlining_pass => LLVMAddFunctionInliningPass,
        add_always_inliner_pass => LLVMAddAlwaysInlinerPass, add_global_dce_pass => LLVMAddGlobalDCEPass, add_global_optimizer_pass => LLVMAddGlobalOptimizerPass,
        add_ipsccp_pass => LLVMAddIPSCCPPass, add_strip_dead_prototypes_pass => LLVMAddStripDeadPrototypesPass, add_strip_symbol_pass => LLVMAddStripSymbolsPass,
        add_promote_memory_to_register_pass => LLVMAddPromoteMemoryToRegisterPass, add_lower_switch_pass => LLVMAddLowerSwitchPass,
        add_loop_vectorize_pass => LLVMAddLoopVectorizePass, add_slp_vectorize_pass => LLVMAddSLPVectorizePass,
    );
}
