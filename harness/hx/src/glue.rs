//! Abstract values (JSON) <-> values of the implementation.
use crate::json::J;
use zserio::ztype::{BytesType, ExternType};

pub trait Glue: Sized {
    fn build(j: &J) -> Result<Self, String>;
    fn dump(&self) -> J;
}

macro_rules! int_glue {
    ($($t:ty)*) => {$(
        impl Glue for $t {
            fn build(j: &J) -> Result<Self, String> {
                let v = j.num()?;
                <$t>::try_from(v).map_err(|_| format!("{} does not fit in {}", v, stringify!($t)))
            }
            fn dump(&self) -> J { J::of_num(*self as i128) }
        }
    )*};
}
int_glue!(u8 u16 u32 u64 i8 i16 i32 i64);

impl Glue for bool {
    fn build(j: &J) -> Result<Self, String> {
        match j {
            J::Bool(b) => Ok(*b),
            _ => Err("not a bool".into()),
        }
    }
    fn dump(&self) -> J {
        J::Bool(*self)
    }
}
impl Glue for f32 {
    fn build(j: &J) -> Result<Self, String> {
        Ok(f32::from_bits(j.num()? as u32))
    }
    fn dump(&self) -> J {
        J::of_num(self.to_bits() as i128)
    }
}
impl Glue for f64 {
    fn build(j: &J) -> Result<Self, String> {
        Ok(f64::from_bits(j.num()? as u64))
    }
    fn dump(&self) -> J {
        J::of_num(self.to_bits() as i128)
    }
}
impl Glue for String {
    fn build(j: &J) -> Result<Self, String> {
        String::from_utf8(j.bytes()).map_err(|e| e.to_string())
    }
    fn dump(&self) -> J {
        J::of_bytes(self.as_bytes())
    }
}
impl Glue for BytesType {
    fn build(j: &J) -> Result<Self, String> {
        Ok(BytesType { byte_size: u32::build(j.at("n"))?, data_blob: j.at("b").bytes() })
    }
    fn dump(&self) -> J {
        J::obj(vec![("n", self.byte_size.dump()), ("b", J::of_bytes(&self.data_blob))])
    }
}
impl Glue for ExternType {
    fn build(j: &J) -> Result<Self, String> {
        Ok(ExternType { bit_size: u32::build(j.at("n"))?, data_blob: j.at("b").bytes() })
    }
    fn dump(&self) -> J {
        J::obj(vec![("n", self.bit_size.dump()), ("b", J::of_bytes(&self.data_blob))])
    }
}
impl<T: Glue> Glue for Vec<T> {
    fn build(j: &J) -> Result<Self, String> {
        j.arr().iter().map(T::build).collect()
    }
    fn dump(&self) -> J {
        J::Arr(self.iter().map(|x| x.dump()).collect())
    }
}
impl<T: Glue> Glue for Option<T> {
    fn build(j: &J) -> Result<Self, String> {
        match j.arr() {
            [] => Ok(None),
            [x] => Ok(Some(T::build(x)?)),
            _ => Err("not an optional".into()),
        }
    }
    fn dump(&self) -> J {
        J::Arr(self.iter().map(|x| x.dump()).collect())
    }
}
impl<T: Glue> Glue for Box<T> {
    fn build(j: &J) -> Result<Self, String> {
        T::build(j).map(Box::new)
    }
    fn dump(&self) -> J {
        (**self).dump()
    }
}

/// sets one field from the object's description unless it is absent there or unspecified
pub fn set<T: Glue>(slot: &mut T, j: &J, name: &str) -> Result<(), String> {
    match j.get(name) {
        Some(v) if !v.is_any() => {
            *slot = T::build(v).map_err(|e| format!("{name}: {e}"))?;
            Ok(())
        }
        _ => Ok(()),
    }
}
