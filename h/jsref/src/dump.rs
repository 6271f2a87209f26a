//! A `serde::Serializer` that renders an AST as text without locations and, on
//! the way, checks the locations (well formed, nested, on char boundaries).
use serde::ser::*;
use std::fmt::Write;

#[derive(Default)]
pub struct Dumper {
    pub out: String,
    /// (start, end) of the enclosing nodes
    stack: Vec<(usize, usize)>,
    in_loc: Option<Vec<usize>>,
    pub bad: Vec<String>,
    /// (start, end, tag) of every node in pre-order
    pub nodes: Vec<(usize, usize)>,
    pending: bool,
}
#[derive(Debug)]
pub struct E(String);
impl std::fmt::Display for E {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str(&self.0)
    }
}
impl std::error::Error for E {}
impl serde::ser::Error for E {
    fn custom<T: std::fmt::Display>(m: T) -> Self {
        E(m.to_string())
    }
}
pub struct C<'a> {
    d: &'a mut Dumper,
    node: bool,
    loc: bool,
}
impl<'a> C<'a> {
    fn close(self) -> Result<(), E> {
        if self.node {
            self.d.stack.pop();
        }
        if self.loc {
            let v = self.d.in_loc.take().unwrap();
            let (s, e) = (v[0], v[1]);
            if s > e {
                self.d.bad.push(format!("node range {}..{} is reversed", s, e));
            }
            if let Some((ps, pe)) = self.d.stack.last().copied() {
                if ps != usize::MAX && (s < ps || e > pe) {
                    self.d.bad.push(format!("node range {}..{} is not inside its parent {}..{}", s, e, ps, pe));
                }
            }
            self.d.nodes.push((s, e));
            self.d.stack.push((s, e));
            self.d.pending = true;
            return Ok(());
        }
        self.d.out.push(')');
        Ok(())
    }
    fn field<T: Serialize + ?Sized>(&mut self, k: &str, v: &T) -> Result<(), E> {
        if self.loc {
            return v.serialize(&mut *self.d);
        }
        if k == "loc" {
            v.serialize(&mut *self.d)?;
            if self.d.pending {
                self.d.pending = false;
                self.node = true;
            }
            return Ok(());
        }
        if k != "stx" {
            self.d.out.push(' ');
            self.d.out.push_str(k);
            self.d.out.push(':');
        }
        v.serialize(&mut *self.d)
    }
}
impl Dumper {
    fn open(&mut self, name: &str) -> C<'_> {
        if name == "Loc" {
            self.in_loc = Some(vec![]);
            return C { d: self, node: false, loc: true };
        }
        self.out.push('(');
        if name != "Node" {
            self.out.push_str(name);
        }
        C { d: self, node: false, loc: false }
    }
}
impl<'a> Serializer for &'a mut Dumper {
    type Ok = ();
    type Error = E;
    type SerializeSeq = C<'a>;
    type SerializeTuple = C<'a>;
    type SerializeTupleStruct = C<'a>;
    type SerializeTupleVariant = C<'a>;
    type SerializeMap = C<'a>;
    type SerializeStruct = C<'a>;
    type SerializeStructVariant = C<'a>;
    fn serialize_bool(self, v: bool) -> Result<(), E> {
        self.out.push(if v { 'T' } else { 'F' });
        Ok(())
    }
    fn serialize_i8(self, v: i8) -> Result<(), E> {
        self.serialize_i64(v as i64)
    }
    fn serialize_i16(self, v: i16) -> Result<(), E> {
        self.serialize_i64(v as i64)
    }
    fn serialize_i32(self, v: i32) -> Result<(), E> {
        self.serialize_i64(v as i64)
    }
    fn serialize_i64(self, v: i64) -> Result<(), E> {
        let _ = write!(self.out, "{}", v);
        Ok(())
    }
    fn serialize_u8(self, v: u8) -> Result<(), E> {
        self.serialize_u64(v as u64)
    }
    fn serialize_u16(self, v: u16) -> Result<(), E> {
        self.serialize_u64(v as u64)
    }
    fn serialize_u32(self, v: u32) -> Result<(), E> {
        self.serialize_u64(v as u64)
    }
    fn serialize_u64(self, v: u64) -> Result<(), E> {
        if let Some(l) = self.in_loc.as_mut() {
            l.push(v as usize);
            return Ok(());
        }
        let _ = write!(self.out, "{}", v);
        Ok(())
    }
    fn serialize_f32(self, v: f32) -> Result<(), E> {
        self.serialize_f64(v as f64)
    }
    fn serialize_f64(self, v: f64) -> Result<(), E> {
        let _ = write!(self.out, "#{:x}", v.to_bits());
        Ok(())
    }
    fn serialize_char(self, v: char) -> Result<(), E> {
        self.out.push(v);
        Ok(())
    }
    fn serialize_str(self, v: &str) -> Result<(), E> {
        self.out.push('"');
        self.out.push_str(v);
        self.out.push('"');
        Ok(())
    }
    fn serialize_bytes(self, _v: &[u8]) -> Result<(), E> {
        Ok(())
    }
    fn serialize_none(self) -> Result<(), E> {
        self.out.push('-');
        Ok(())
    }
    fn serialize_some<T: Serialize + ?Sized>(self, v: &T) -> Result<(), E> {
        v.serialize(self)
    }
    fn serialize_unit(self) -> Result<(), E> {
        self.out.push('_');
        Ok(())
    }
    fn serialize_unit_struct(self, n: &'static str) -> Result<(), E> {
        self.out.push_str(n);
        Ok(())
    }
    fn serialize_unit_variant(self, _n: &'static str, _i: u32, v: &'static str) -> Result<(), E> {
        self.out.push_str(v);
        Ok(())
    }
    fn serialize_newtype_struct<T: Serialize + ?Sized>(self, _n: &'static str, v: &T) -> Result<(), E> {
        v.serialize(self)
    }
    fn serialize_newtype_variant<T: Serialize + ?Sized>(self, _n: &'static str, _i: u32, v: &'static str, x: &T) -> Result<(), E> {
        self.out.push_str(v);
        self.out.push('<');
        x.serialize(&mut *self)?;
        self.out.push('>');
        Ok(())
    }
    fn serialize_seq(self, _l: Option<usize>) -> Result<C<'a>, E> {
        Ok(self.open("["))
    }
    fn serialize_tuple(self, _l: usize) -> Result<C<'a>, E> {
        Ok(self.open("t"))
    }
    fn serialize_tuple_struct(self, n: &'static str, _l: usize) -> Result<C<'a>, E> {
        Ok(self.open(n))
    }
    fn serialize_tuple_variant(self, _n: &'static str, _i: u32, v: &'static str, _l: usize) -> Result<C<'a>, E> {
        Ok(self.open(v))
    }
    fn serialize_map(self, _l: Option<usize>) -> Result<C<'a>, E> {
        Ok(self.open("m"))
    }
    fn serialize_struct(self, n: &'static str, _l: usize) -> Result<C<'a>, E> {
        Ok(self.open(n))
    }
    fn serialize_struct_variant(self, _n: &'static str, _i: u32, v: &'static str, _l: usize) -> Result<C<'a>, E> {
        Ok(self.open(v))
    }
}
impl<'a> SerializeSeq for C<'a> {
    type Ok = ();
    type Error = E;
    fn serialize_element<T: Serialize + ?Sized>(&mut self, v: &T) -> Result<(), E> {
        self.field("", v)
    }
    fn end(self) -> Result<(), E> {
        self.close()
    }
}
impl<'a> SerializeTuple for C<'a> {
    type Ok = ();
    type Error = E;
    fn serialize_element<T: Serialize + ?Sized>(&mut self, v: &T) -> Result<(), E> {
        self.field("", v)
    }
    fn end(self) -> Result<(), E> {
        self.close()
    }
}
impl<'a> SerializeTupleStruct for C<'a> {
    type Ok = ();
    type Error = E;
    fn serialize_field<T: Serialize + ?Sized>(&mut self, v: &T) -> Result<(), E> {
        self.field("", v)
    }
    fn end(self) -> Result<(), E> {
        self.close()
    }
}
impl<'a> SerializeTupleVariant for C<'a> {
    type Ok = ();
    type Error = E;
    fn serialize_field<T: Serialize + ?Sized>(&mut self, v: &T) -> Result<(), E> {
        self.field("", v)
    }
    fn end(self) -> Result<(), E> {
        self.close()
    }
}
impl<'a> SerializeMap for C<'a> {
    type Ok = ();
    type Error = E;
    fn serialize_key<T: Serialize + ?Sized>(&mut self, v: &T) -> Result<(), E> {
        self.field("", v)
    }
    fn serialize_value<T: Serialize + ?Sized>(&mut self, v: &T) -> Result<(), E> {
        self.field("", v)
    }
    fn end(self) -> Result<(), E> {
        self.close()
    }
}
impl<'a> SerializeStruct for C<'a> {
    type Ok = ();
    type Error = E;
    fn serialize_field<T: Serialize + ?Sized>(&mut self, k: &'static str, v: &T) -> Result<(), E> {
        self.field(k, v)
    }
    fn end(self) -> Result<(), E> {
        self.close()
    }
}
impl<'a> SerializeStructVariant for C<'a> {
    type Ok = ();
    type Error = E;
    fn serialize_field<T: Serialize + ?Sized>(&mut self, k: &'static str, v: &T) -> Result<(), E> {
        self.field(k, v)
    }
    fn end(self) -> Result<(), E> {
        self.close()
    }
}

/// Location-free text of an AST (or any part of one).
pub fn dump<T: Serialize + ?Sized>(v: &T) -> String {
    let mut d = Dumper::default();
    match v.serialize(&mut d) {
        Ok(()) => d.out,
        Err(e) => format!("serialize error {}", e.0),
    }
}
/// Problems with the locations of an AST over `src`.
pub fn spans<T: Serialize + ?Sized>(v: &T, src: &str) -> Vec<String> {
    let mut d = Dumper::default();
    let _ = v.serialize(&mut d);
    for (s, e) in &d.nodes {
        if *e > src.len() || !src.is_char_boundary((*s).min(src.len())) || !src.is_char_boundary((*e).min(src.len())) {
            d.bad.push(format!("node range {}..{} is not a valid range of the source (len {})", s, e, src.len()));
        }
    }
    d.bad
}
