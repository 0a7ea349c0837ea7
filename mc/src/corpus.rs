//! Enumerated macros: every construct the crate generates code for, with every leaf in it.

use crate::engine::*;
use crate::gen::Cx;

pub struct Src {
  pub func: bool,
  pub params: Vec<&'static str>,
  pub body: Vec<String>,
}

impl Src {
  pub fn text(&self) -> String {
    if self.func { format!("M({}) {}", self.params.join(", "), self.body.join(" ")) } else { format!("M {}", self.body.join(" ")) }
  }
  pub fn toks(&self) -> Vec<&str> {
    self.body.iter().map(|s| s.as_str()).collect()
  }
}

/// Leaves usable in any macro.
pub const LEAVES: &[&str] = &[
  "x", "1", "unk", "E1", "300u", "1.5f", "1e39f", "1e999", "'a'", "L'x'", "\"ab\"", "\"a\\0b\"", "u8\"s\"", "L\"w\"", "__LINE__", "__FILE__", "__INT_MAX__", "( int ) 1.5", "( void * ) 0", "( const char * const ) 0",
  "sizeof ( int )", "sizeof ( T )", "( T ) 2", "( I * ) 3", "f ( )", "g ( 1 , x )", "h ( )", "( bool ) x", "__builtin_offsetof ( T , fld )",
  "E2", "u'a'", "u8'a'", "u\"s\"", "U\"s\"", "\"\\xff\"", "\"a\" \"b\"", "\"q\" __FILE__", "__SCHAR_MAX__", "__SHRT_MAX__", "__LONG_MAX__", "__LONG_LONG_MAX__", "-1e999", "( long ) -1", "sizeof ( unsigned long * )", "( size_t ) 1",
  "( unsigned char ) 1", "( short ) 1", "( unsigned short ) 1", "( unsigned int ) 1", "( unsigned long ) 1", "( long long ) 1", "( unsigned long long ) 1", "( signed char ) 1", "( char ) 1", "( double ) 1", "( float ) 1", "( int * const ) 0", "( struct S * ) 0",
];
/// The first of them are the reduced set.
pub const FEW: usize = 29;
/// Leaves of function-like macros only.
pub const FN_LEAVES: &[&str] = &["y", "# x", "x ## y", "a_ ## x", "\"s\" # x", "__VA_ARGS__"];

/// Frames with up to two holes; the flag tells if it suits a variable-like macro.
pub const FRAMES: &[(bool, &str)] = &[
  (true, "@"), (true, "( @ )"), (true, "- @"), (true, "! @"), (true, "~ @"), (true, "( int ) @"), (true, "( unsigned char ) ( @ )"), (true, "( T ) ( @ )"), (true, "@ + @"), (true, "@ == @"), (true, "@ << @"), (true, "@ ? @ : 2"),
  (true, "f ( @ )"), (true, "g ( @ , @ )"), (true, "@ @"),
  (false, "* @"), (false, "& @"), (false, "( @ ) . fld"), (false, "( @ ) -> fld"), (false, "x [ @ ]"), (false, "x = @"), (false, "x += @"), (false, "* x = @"), (false, "++ x"), (false, "x -- + @"), (false, "* ( volatile int * ) @"),
  (false, "* ( volatile unsigned char * ) x = @"), (false, "( ( volatile T * ) x ) -> fld"), (false, "( * ( volatile T * ) x ) . fld = @"), (false, "y = x = @"), (false, "{ @ ; @ ; }"), (false, "do { f ( @ ) ; } while ( 0 )"),
  (false, "if ( @ ) { f ( @ ) ; } else x = 1 ;"), (false, "{ T v = @ ; f ( v ) ; }"), (false, "{ unsigned long v = @ ; static short w = 1 ; x = v ; }"), (false, "( void ) @"), (false, "{ const char * s = @ ; }"),
  (false, "__asm__ volatile ( \"nop %0\" : \"=r\" ( x ) : \"r\" ( @ ) : \"memory\" )"), (false, "__asm__ ( \"cli\" : : : \"cc\" )"), (false, "int * fn0 ( int a , char * b ) ;"), (false, "static void fn0 ( T x ) ;"), (false, "& x -> fld"), (false, "x . fld ++"), (false, "sizeof ( @ )"),
];

/// A macro: a frame with a leaf in every hole.
pub fn src(ch: &mut Ch, leaves: usize, frames: usize) -> Src {
  let func = ch.flag();
  let ok: Vec<&str> = FRAMES[..frames].iter().filter(|f| func || f.0).map(|f| f.1).collect();
  let frame = ok[ch.pick(ok.len())];
  let mut all: Vec<&str> = LEAVES[..leaves].to_vec();
  if func {
    all.extend(FN_LEAVES);
  }
  let mut body = vec![];
  for t in frame.split(' ') {
    if t == "@" {
      let l = all[ch.pick(all.len())];
      body.extend(l.split(' ').map(String::from));
    } else {
      body.push(t.to_string());
    }
  }
  let params = if !func {
    vec![]
  } else if body.iter().any(|t| t == "__VA_ARGS__") {
    vec!["x", "y", "..."]
  } else {
    vec!["x", "y"]
  };
  Src { func, params, body }
}

pub const ARGS: u32 = 1;
pub const TYPES: u32 = 2;
pub const ENUMS: u32 = 4;
pub const FNS: u32 = 8;
pub const FIELDS: u32 = 16;

/// The context which knows what `bits` says and has these prefixes.
pub fn context(bits: u32, ffi: Option<&str>, tr: Option<&str>, target: Option<&str>) -> Cx {
  let f = |t: &str| match ffi {
    Some(p) => t.replace("c_", &format!("{p}::c_")),
    None => t.to_string(),
  };
  let mut c = Cx { ffi: ffi.map(String::from), tr: tr.map(String::from), target: target.map(String::from), ..Cx::default() };
  if bits & ARGS != 0 {
    c.args.push(("*".into(), "x".into(), f("c_int")));
    c.args.push(("*".into(), "y".into(), f("*mut c_char")));
  }
  if bits & TYPES != 0 {
    c.types.push(("T".into(), "m::U".into()));
    c.types.push(("S".into(), "S_".into()));
    c.types.push(("I".into(), f("c_int")));
    c.types.push(("wchar_t".into(), "i32".into()));
  }
  if bits & ENUMS != 0 {
    c.enums.push(("E1".into(), "En".into(), "En::E1".into()));
    c.enums.push(("E2".into(), f("c_uint"), "E_TWO".into()));
  }
  if bits & FNS != 0 {
    c.fns.push(("f".into(), vec![f("c_int")], f("c_int")));
    c.fns.push(("g".into(), vec![f("c_long"), f("*const c_char")], f("c_void")));
  }
  if bits & FIELDS != 0 {
    c.fields.push(("m::U".into(), "fld".into(), f("c_short")));
  }
  c
}
