// What the probe serves: the configuration a type needs, the type, and the type whose model describes it.
// Both sides number the entries in this order.
entries! {
    core u8 => u8; core i8 => i8; core u16 => u16; core i16 => i16; core u32 => u32; core i32 => i32; core u64 => u64; core i64 => i64; core u128 => u128; core i128 => i128;
    core f32 => f32; core f64 => f64; core usize => usize; core char => char; core bool => bool; core () => ();
    core &'static str => String; core Raw => Vec<u8>; alloc &'static [u8] => Vec<u8>; alloc &'static [i8] => Vec<i8>; core &'static [u8; 5] => [u8; 5];
    native &'static [u16] => Vec<u16>; native &'static [u32] => Vec<u32>; native &'static [u64] => Vec<u64>; native &'static [i128] => Vec<i128>; native &'static [f32] => Vec<f32>; ncore &'static [f64; 2] => [f64; 2];
    core [u8; 0] => [u8; 0]; core [u8; 7] => [u8; 7]; core [u16; 3] => [u16; 3]; core [i64; 4] => [i64; 4]; core [u128; 2] => [u128; 2]; core [f32; 5] => [f32; 5]; core [[u16; 2]; 3] => [[u16; 2]; 3]; core [char; 2] => [char; 2]; core [u32; 40] => [u32; 40]; core [Option<u16>; 3] => [Option<u16>; 3]; core [(); 3] => [(); 3];
    core (u8,) => (u8,); core (u8, u16) => (u8, u16); core (u32, u8, u64) => (u32, u8, u64); core (u8, u16, u32, u64, u128, i8, i16) => (u8, u16, u32, u64, u128, i8, i16); core (u8, u16, u8, u16, u8, u16, u8, u16, u8, u16) => (u8, u16, u8, u16, u8, u16, u8, u16, u8, u16);
    core (bool, Option<u8>) => (bool, Option<u8>); core (u8, &'static str, u16) => (u8, String, u16); alloc (u16, &'static [u8], char) => (u16, Vec<u8>, char); core (bool, usize, f64) => (bool, usize, f64);
    core Option<u8> => Option<u8>; core Option<u64> => Option<u64>; core Option<Option<u16>> => Option<Option<u16>>; core Option<&'static str> => Option<String>; core Option<NonZeroU32> => Option<NonZeroU32>;
    core Result<u8, u64> => Result<u8, u64>; core Result<(), ()> => Result<(), ()>; core Option<Result<u8, Option<i8>>> => Option<Result<u8, Option<i8>>>; core Result<&'static str, char> => Result<String, char>;
    core Range<u16> => Range<u16>; core RangeInclusive<i64> => RangeInclusive<i64>; core RangeInclusive<u8> => RangeInclusive<u8>; core Range<char> => Range<char>;
    core speedy::Endianness => speedy::Endianness; core [speedy::Endianness; 3] => [speedy::Endianness; 3];
    core NonZeroU8 => NonZeroU8; core NonZeroU16 => NonZeroU16; core NonZeroU32 => NonZeroU32; core NonZeroU64 => NonZeroU64; core NonZeroI8 => NonZeroI8; core NonZeroI16 => NonZeroI16; core NonZeroI32 => NonZeroI32; core NonZeroI64 => NonZeroI64;
    core AtomicU8 => AtomicU8; core AtomicI16 => AtomicI16; core AtomicU16 => AtomicU16; core AtomicU32 => AtomicU32; core AtomicU64 => AtomicU64; core AtomicI64 => AtomicI64;
    core speedy::private::VarInt64 => speedy::private::VarInt64; core (speedy::private::VarInt64, u16) => (speedy::private::VarInt64, u16); core [speedy::private::VarInt64; 3] => [speedy::private::VarInt64; 3];
    core std::time::Duration => std::time::Duration; core (u8, std::time::Duration) => (u8, std::time::Duration); std std::time::SystemTime => std::time::SystemTime; std Ipv4Addr => Ipv4Addr; std Ipv6Addr => Ipv6Addr; std IpAddr => IpAddr; std Vec<IpAddr> => Vec<IpAddr>;

    alloc String => String; alloc Box<str> => Box<str>; alloc Cow<'static, str> => Cow<'static, str>; alloc Vec<u8> => Vec<u8>; alloc Vec<i8> => Vec<i8>; alloc Vec<u16> => Vec<u16>; alloc Vec<i32> => Vec<i32>; alloc Vec<u64> => Vec<u64>; alloc Vec<u128> => Vec<u128>; alloc Vec<f32> => Vec<f32>; alloc Vec<f64> => Vec<f64>; alloc Vec<usize> => Vec<usize>; alloc Vec<char> => Vec<char>; alloc Vec<bool> => Vec<bool>; alloc Vec<String> => Vec<String>; alloc Vec<Vec<u16>> => Vec<Vec<u16>>; alloc Vec<(u8, u32)> => Vec<(u8, u32)>; alloc Vec<Option<u16>> => Vec<Option<u16>>; alloc Vec<[u32; 3]> => Vec<[u32; 3]>; alloc Vec<&'static str> => Vec<String>; alloc Vec<()> => Vec<()>;
    alloc Box<[u8]> => Box<[u8]>; alloc Box<[u64]> => Box<[u64]>; alloc Box<[String]> => Box<[String]>; alloc Box<u8> => Box<u8>; alloc Box<(u16, Vec<u8>)> => Box<(u16, Vec<u8>)>; alloc Box<[Box<u16>]> => Box<[Box<u16>]>;
    alloc Cow<'static, [u8]> => Cow<'static, [u8]>; alloc Cow<'static, [u16]> => Cow<'static, [u16]>; alloc Cow<'static, [i32]> => Cow<'static, [i32]>; alloc Cow<'static, [f64]> => Cow<'static, [f64]>; alloc Cow<'static, [u128]> => Cow<'static, [u128]>; alloc Cow<'static, [String]> => Cow<'static, [String]>; alloc (u8, Cow<'static, [u64]>, u16) => (u8, Cow<'static, [u64]>, u16);
    alloc BTreeMap<u8, u8> => BTreeMap<u8, u8>; alloc BTreeMap<u16, u32> => BTreeMap<u16, u32>; alloc BTreeMap<String, Vec<u8>> => BTreeMap<String, Vec<u8>>; alloc BTreeMap<u8, BTreeMap<u16, u8>> => BTreeMap<u8, BTreeMap<u16, u8>>; alloc BTreeSet<i16> => BTreeSet<i16>; alloc BTreeSet<String> => BTreeSet<String>; alloc Cow<'static, BTreeMap<u32, String>> => Cow<'static, BTreeMap<u32, String>>; alloc Cow<'static, BTreeSet<u32>> => Cow<'static, BTreeSet<u32>>;
    alloc [String; 2] => [String; 2]; alloc Option<Vec<u32>> => Option<Vec<u32>>; alloc Result<String, ()> => Result<String, ()>; alloc Range<String> => Range<String>; alloc Vec<Range<u32>> => Vec<Range<u32>>; alloc Vec<NonZeroU16> => Vec<NonZeroU16>; alloc Vec<speedy::private::VarInt64> => Vec<speedy::private::VarInt64>; alloc (u8, String, u16, i8) => (u8, String, u16, i8); alloc Vec<(Option<u8>, bool, String)> => Vec<(Option<u8>, bool, String)>; alloc Vec<BTreeMap<u8, Vec<String>>> => Vec<BTreeMap<u8, Vec<String>>>;
    std HashMap<u16, u16> => HashMap<u16, u16>; std HashMap<String, u32> => HashMap<String, u32>; std HashSet<u16> => HashSet<u16>; std HashSet<String> => HashSet<String>; std Cow<'static, HashMap<u8, u16>> => Cow<'static, HashMap<u8, u16>>;

    derive Plain => Plain; derive Flat => Flat; derive [Flat; 3] => [Flat; 3]; derive Tight => Tight; derive [Tight; 4] => [Tight; 4]; derive Mixed => Mixed; derive Pair<u16, u64> => Pair<u16, u64>; derive Pair<Flat, Option<Tight>> => Pair<Flat, Option<Tight>>; nderive &'static [Units] => Vec<Units>; derive Units => Units; nderive &'static [Byte] => Vec<Byte>; derive Byte => Byte;
    derive Small => Small; derive Wide => Wide; derive [Small; 2] => [Small; 2]; derive Option<Wide> => Option<Wide>; derive Discr => Discr; derive Nums => Nums; derive Skips => Skips; derive Text<'static> => (u16, Vec<u8>, String, u8); derive Trans => Trans; derive NoFields => NoFields;
    dalloc Lens => Lens; dalloc Given => Given; dalloc Rest => Rest; dalloc Late => Late; dalloc Deep<'static> => Deep<'static>; dalloc Vec<Flat> => Vec<Flat>; dalloc Vec<Tight> => Vec<Tight>; dalloc Cow<'static, [Flat]> => Cow<'static, [Flat]>; dalloc Vec<Small> => Vec<Small>; dalloc Magic => Magic; dalloc Vec<Mixed> => Vec<Mixed>;
    dstd Tables => Tables;

    ext chrono::DateTime<chrono::Utc> => chrono::DateTime<chrono::Utc>; ext regex::Regex => regex::Regex; ext uuid::Uuid => uuid::Uuid; ext Vec<uuid::Uuid> => Vec<uuid::Uuid>; ext smallvec::SmallVec<[u16; 2]> => smallvec::SmallVec<[u16; 2]>; ext smallvec::SmallVec<[String; 2]> => smallvec::SmallVec<[String; 2]>; ext smallvec::SmallVec<[u8; 4]> => smallvec::SmallVec<[u8; 4]>;
    ext glam::Vec2 => glam::Vec2; ext glam::Vec3 => glam::Vec3; ext glam::Vec3A => glam::Vec3A; ext glam::Vec4 => glam::Vec4; ext glam::DVec3 => glam::DVec3; ext glam::IVec4 => glam::IVec4; ext glam::UVec2 => glam::UVec2; ext glam::Quat => glam::Quat; ext glam::Mat2 => glam::Mat2; ext glam::Mat3 => glam::Mat3; ext glam::Mat3A => glam::Mat3A; ext glam::Mat4 => glam::Mat4; ext glam::DMat4 => glam::DMat4; ext glam::Affine2 => glam::Affine2; ext glam::Affine3A => glam::Affine3A; ext glam::BVec3 => glam::BVec3; ext Vec<glam::Vec4> => Vec<glam::Vec4>;
    ext indexmap_v1::IndexMap<u8, u16> => indexmap_v1::IndexMap<u8, u16>; ext indexmap_v1::IndexSet<String> => indexmap_v1::IndexSet<String>; ext indexmap_v2::IndexMap<u32, u16> => indexmap_v2::IndexMap<u32, u16>; ext indexmap_v2::IndexSet<i64> => indexmap_v2::IndexSet<i64>;
}
