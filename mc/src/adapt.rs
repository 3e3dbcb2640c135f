//! Adapters from the model's values to the real types, through the public API only.

use crate::refcodec::*;
use std::convert::TryFrom;
use std::io::Write;
use stratumv2::codec::{
    deserialize, frame, serialize, unframe, ByteParser, Deserializable, Frameable, Message,
    Serializable,
};
use stratumv2::common::{self, ChannelEndpointChanged, Protocol, SetupConnectionErrorCode};
use stratumv2::error::{Error, Result as SResult};
use stratumv2::job_negotiation as jn;
use stratumv2::mining::{self, OpenMiningChannelErrorCode};
use stratumv2::noise::{Signature, SignatureNoiseMessage};
use stratumv2::types::*;

pub fn message_types() -> [MessageType; 27] {
    use MessageType::*;
    [
        SetupConnection,
        SetupConnectionSuccess,
        SetupConnectionError,
        ChannelEndpointChanged,
        OpenStandardMiningChannel,
        OpenStandardMiningChannelSuccess,
        OpenStandardMiningChannelError,
        OpenExtendedMiningChannel,
        OpenExtendedMiningChannelSuccess,
        OpenExtendedMiningChannelError,
        UpdateChannel,
        UpdateChannelError,
        CloseChannel,
        SetExtranoncePrefix,
        SubmitSharesStandard,
        SubmitSharesExtended,
        SubmitSharesSuccess,
        SubmitSharesError,
        NewMiningJob,
        NewExtendedMiningJob,
        SetNewPrevHash,
        SetTarget,
        SetCustomMiningJob,
        SetCustomMiningJobSuccess,
        SetCustomMiningJobError,
        Reconnect,
        SetGroupChannel,
    ]
}

/// A real type with its model.
pub trait Real: Sized + Serializable + Deserializable + 'static {
    fn schema() -> Schema;
    /// Builds the value through the public constructor.
    fn build(v: &[Val]) -> SResult<Self>;
    /// Reads the value back through public fields; an inconsistent value is an error.
    fn vals(&self) -> Result<Vec<Val>, String>;
    /// The library's own notion of equality (true where it has none).
    fn same(&self, other: &Self) -> bool;
    /// Whether the library defines equality for it.
    fn has_eq() -> bool {
        true
    }
    /// The library's own copy (none where it has none).
    fn copy(&self) -> Option<Self> {
        None
    }
}

fn str32(v: &Val) -> SResult<STR0_32> {
    STR0_32::new(v.s())
}

macro_rules! prim {
    ($t:ty, $ty:expr, |$v:ident| $build:expr, |$s:ident| $vals:expr) => {
        impl Real for $t {
            fn schema() -> Schema {
                Schema::Struct(vec![("value", $ty)], no_rule)
            }
            fn build($v: &[Val]) -> SResult<Self> {
                $build
            }
            fn vals(&self) -> Result<Vec<Val>, String> {
                let $s = self;
                $vals
            }
            fn same(&self, other: &Self) -> bool {
                self == other
            }
            fn copy(&self) -> Option<Self> {
                Some(self.clone())
            }
        }
    };
}

fn n1(n: u64) -> Result<Vec<Val>, String> {
    Ok(vec![Val::N(n)])
}

prim!(bool, Ty::Bool, |v| Ok(v[0].n() == 1), |s| n1(*s as u64));
prim!(u8, Ty::U8, |v| Ok(v[0].n() as u8), |s| n1(*s as u64));
prim!(u16, Ty::U16, |v| Ok(v[0].n() as u16), |s| n1(*s as u64));
prim!(u32, Ty::U32, |v| Ok(v[0].n() as u32), |s| n1(*s as u64));
prim!(U24, Ty::U24, |v| U24::new(v[0].n() as u32), |s| n1(s.0 as u64));
prim!(
    U256,
    Ty::U256,
    |v| Ok(U256(<[u8; 32]>::try_from(v[0].b()).unwrap())),
    |s| Ok(vec![Val::B(s.0.to_vec())])
);

impl Real for f32 {
    fn schema() -> Schema {
        Schema::Struct(vec![("value", Ty::F32)], no_rule)
    }
    fn build(v: &[Val]) -> SResult<Self> {
        Ok(f32::from_bits(v[0].n() as u32))
    }
    fn vals(&self) -> Result<Vec<Val>, String> {
        n1(self.to_bits() as u64)
    }
    fn same(&self, other: &Self) -> bool {
        self == other || self.is_nan()
    }
    fn copy(&self) -> Option<Self> {
        Some(*self)
    }
}

fn sval(length: usize, data: &str) -> Result<Val, String> {
    if length != data.len() {
        return Err(format!(
            "length field says {} but the text has {} bytes",
            length,
            data.len()
        ));
    }
    Ok(Val::B(data.as_bytes().to_vec()))
}
fn bval(length: usize, data: &[u8]) -> Result<Val, String> {
    if length != data.len() {
        return Err(format!(
            "length field says {} but there are {} bytes",
            length,
            data.len()
        ));
    }
    Ok(Val::B(data.to_vec()))
}

prim!(STR0_32, Ty::Str(32), |v| STR0_32::new(v[0].s()), |s| Ok(vec![
    sval(s.length as usize, &s.data)?
]));
prim!(STR0_255, Ty::Str(255), |v| STR0_255::new(v[0].s()), |s| Ok(vec![
    sval(s.length as usize, &s.data)?
]));
prim!(B0_31, Ty::Bytes { len: 1, max: 31 }, |v| B0_31::new(v[0].b()), |s| Ok(
    vec![bval(s.length as usize, &s.data)?]
));
prim!(B0_32, Ty::Bytes { len: 1, max: 32 }, |v| B0_32::new(v[0].b()), |s| Ok(
    vec![bval(s.length as usize, &s.data)?]
));
prim!(B0_255, Ty::Bytes { len: 1, max: 255 }, |v| B0_255::new(v[0].b()), |s| Ok(
    vec![bval(s.length as usize, &s.data)?]
));
prim!(B0_64K, Ty::Bytes { len: 2, max: 65535 }, |v| B0_64K::new(v[0].b()), |s| Ok(
    vec![bval(s.length as usize, &s.data)?]
));
prim!(
    B0_16M,
    Ty::Bytes { len: 3, max: (1 << 24) - 1 },
    |v| B0_16M::new(v[0].b()),
    |s| Ok(vec![bval(s.length.0 as usize, &s.data)?])
);

fn bad_value() -> Error {
    Error::ParseError("harness: value outside the type".into())
}

pub const PROTOCOLS: [Protocol; 4] = [
    Protocol::Mining,
    Protocol::JobNegotiation,
    Protocol::TemplateDistribution,
    Protocol::JobDistribution,
];
prim!(
    Protocol,
    Ty::Proto,
    |v| PROTOCOLS.get(v[0].n() as usize).cloned().ok_or_else(bad_value),
    |s| n1(PROTOCOLS.iter().position(|p| p == s).ok_or("unknown protocol")? as u64)
);

pub const SETUP_ERRS: [SetupConnectionErrorCode; 3] = [
    SetupConnectionErrorCode::UnsupportedFeatureFlags,
    SetupConnectionErrorCode::UnsupportedProtocol,
    SetupConnectionErrorCode::ProtocolVersionMismatch,
];
pub fn setup_err_n(c: &SetupConnectionErrorCode) -> Result<u64, String> {
    Ok(SETUP_ERRS.iter().position(|p| p == c).ok_or("unknown code")? as u64)
}
prim!(
    SetupConnectionErrorCode,
    Ty::Code(SETUP_CODES),
    |v| SETUP_ERRS.get(v[0].n() as usize).cloned().ok_or_else(bad_value),
    |s| n1(setup_err_n(s)?)
);
pub const OPEN_ERRS: [OpenMiningChannelErrorCode; 2] = [
    OpenMiningChannelErrorCode::UnknownUser,
    OpenMiningChannelErrorCode::MaxTargetOutOfRange,
];
pub fn open_err_n(c: &OpenMiningChannelErrorCode) -> Result<u64, String> {
    Ok(OPEN_ERRS.iter().position(|p| p == c).ok_or("unknown code")? as u64)
}
prim!(
    OpenMiningChannelErrorCode,
    Ty::Code(OPEN_CODES),
    |v| OPEN_ERRS.get(v[0].n() as usize).cloned().ok_or_else(bad_value),
    |s| n1(open_err_n(s)?)
);

pub const M_FLAGS: u32 = 7;
pub const MS_FLAGS: u32 = 3;
pub const J_FLAGS: u32 = 1;
pub const JS_FLAGS: u32 = 0;

macro_rules! flags_prim {
    ($t:ty, $mask:expr) => {
        prim!(
            $t,
            Ty::Flags($mask),
            |v| <$t>::from_bits(v[0].n() as u32).ok_or_else(bad_value),
            |s| n1(s.bits() as u64)
        );
    };
}
flags_prim!(mining::SetupConnectionFlags, M_FLAGS);
flags_prim!(mining::SetupConnectionSuccessFlags, MS_FLAGS);
flags_prim!(jn::SetupConnectionFlags, J_FLAGS);
flags_prim!(jn::SetupConnectionSuccessFlags, JS_FLAGS);

prim!(
    Signature,
    Ty::Sig,
    |v| Signature::from_bytes(v[0].b()).map_err(|_| bad_value()),
    |s| Ok(vec![Val::B(s.to_bytes().to_vec())])
);

/// Vendor (5) and firmware (7) not empty, versions at least 2.
pub fn setup_rule(v: &[Val]) -> bool {
    v[0].n() >= 2 && v[1].n() >= 2 && !v[5].b().is_empty() && !v[7].b().is_empty()
}
pub fn setup_error_rule(v: &[Val]) -> bool {
    !(v[0].n() == 0 && v[1].n() == 0)
}

pub fn setup_fields(mask: u32) -> Vec<(&'static str, Ty)> {
    vec![
        ("min_version", Ty::U16),
        ("max_version", Ty::U16),
        ("flags", Ty::Flags(mask)),
        ("endpoint_host", Ty::Str(255)),
        ("endpoint_port", Ty::U16),
        ("vendor", Ty::Str(255)),
        ("hardware_version", Ty::Str(255)),
        ("firmware", Ty::Str(255)),
        ("device_id", Ty::Str(255)),
    ]
}

macro_rules! setup_impl {
    ($t:ty, $flags:ty, $mask:expr) => {
        impl Real for $t {
            fn schema() -> Schema {
                Schema::Struct(setup_fields($mask), setup_rule)
            }
            fn build(v: &[Val]) -> SResult<Self> {
                <$t>::new(
                    v[0].n() as u16,
                    v[1].n() as u16,
                    <$flags>::from_bits(v[2].n() as u32).ok_or_else(bad_value)?,
                    v[3].s(),
                    v[4].n() as u16,
                    v[5].s(),
                    v[6].s(),
                    v[7].s(),
                    v[8].s(),
                )
            }
            fn vals(&self) -> Result<Vec<Val>, String> {
                Ok(vec![
                    Val::N(self.min_version as u64),
                    Val::N(self.max_version as u64),
                    Val::N(self.flags.bits() as u64),
                    sval(self.endpoint_host.length as usize, &self.endpoint_host.data)?,
                    Val::N(self.endpoint_port as u64),
                    sval(self.vendor.length as usize, &self.vendor.data)?,
                    sval(
                        self.hardware_version.length as usize,
                        &self.hardware_version.data,
                    )?,
                    sval(self.firmware.length as usize, &self.firmware.data)?,
                    sval(self.device_id.length as usize, &self.device_id.data)?,
                ])
            }
            fn same(&self, other: &Self) -> bool {
                self == other
            }
            fn copy(&self) -> Option<Self> {
                Some(self.clone())
            }
        }
    };
}
setup_impl!(mining::SetupConnection, mining::SetupConnectionFlags, M_FLAGS);
setup_impl!(jn::SetupConnection, jn::SetupConnectionFlags, J_FLAGS);

impl Real for common::SetupConnection {
    fn schema() -> Schema {
        Schema::Tagged(vec![
            (0, mining::SetupConnection::schema()),
            (1, jn::SetupConnection::schema()),
        ])
    }
    fn build(v: &[Val]) -> SResult<Self> {
        let w = &v[1..];
        match v[0].n() {
            0 => common::SetupConnection::new_mining(
                w[0].n() as u16,
                w[1].n() as u16,
                mining::SetupConnectionFlags::from_bits(w[2].n() as u32).ok_or_else(bad_value)?,
                w[3].s(),
                w[4].n() as u16,
                w[5].s(),
                w[6].s(),
                w[7].s(),
                w[8].s(),
            ),
            1 => common::SetupConnection::new_job_negotation(
                w[0].n() as u16,
                w[1].n() as u16,
                jn::SetupConnectionFlags::from_bits(w[2].n() as u32).ok_or_else(bad_value)?,
                w[3].s(),
                w[4].n() as u16,
                w[5].s(),
                w[6].s(),
                w[7].s(),
                w[8].s(),
            ),
            _ => Err(bad_value()),
        }
    }
    #[allow(unreachable_patterns)]
    fn vals(&self) -> Result<Vec<Val>, String> {
        match self {
            common::SetupConnection::Mining(m) => {
                let mut v = vec![Val::N(0)];
                v.extend(m.vals()?);
                Ok(v)
            }
            common::SetupConnection::JobNegotiation(m) => {
                let mut v = vec![Val::N(1)];
                v.extend(m.vals()?);
                Ok(v)
            }
            _ => Err("an unknown variant".into()),
        }
    }
    fn same(&self, _: &Self) -> bool {
        true
    }
    fn has_eq() -> bool {
        false
    }
}

macro_rules! success_impl {
    ($t:ty, $flags:ty, $mask:expr) => {
        impl Real for $t {
            fn schema() -> Schema {
                Schema::Struct(
                    vec![("used_version", Ty::U16), ("flags", Ty::Flags($mask))],
                    no_rule,
                )
            }
            fn build(v: &[Val]) -> SResult<Self> {
                <$t>::new(
                    v[0].n() as u16,
                    <$flags>::from_bits(v[1].n() as u32).ok_or_else(bad_value)?,
                )
            }
            fn vals(&self) -> Result<Vec<Val>, String> {
                Ok(vec![
                    Val::N(self.used_version as u64),
                    Val::N(self.flags.bits() as u64),
                ])
            }
            fn same(&self, other: &Self) -> bool {
                self == other
            }
            fn copy(&self) -> Option<Self> {
                Some(self.clone())
            }
        }
    };
}
success_impl!(
    mining::SetupConnectionSuccess,
    mining::SetupConnectionSuccessFlags,
    MS_FLAGS
);
success_impl!(
    jn::SetupConnectionSuccess,
    jn::SetupConnectionSuccessFlags,
    JS_FLAGS
);

macro_rules! setup_error_impl {
    ($t:ty, $flags:ty, $mask:expr) => {
        impl Real for $t {
            fn schema() -> Schema {
                Schema::Struct(
                    vec![("flags", Ty::Flags($mask)), ("error_code", Ty::Code(SETUP_CODES))],
                    setup_error_rule,
                )
            }
            fn build(v: &[Val]) -> SResult<Self> {
                <$t>::new(
                    <$flags>::from_bits(v[0].n() as u32).ok_or_else(bad_value)?,
                    SETUP_ERRS.get(v[1].n() as usize).cloned().ok_or_else(bad_value)?,
                )
            }
            fn vals(&self) -> Result<Vec<Val>, String> {
                Ok(vec![
                    Val::N(self.flags.bits() as u64),
                    Val::N(setup_err_n(&self.error_code)?),
                ])
            }
            fn same(&self, other: &Self) -> bool {
                self == other
            }
            fn copy(&self) -> Option<Self> {
                Some(self.clone())
            }
        }
    };
}
setup_error_impl!(mining::SetupConnectionError, mining::SetupConnectionFlags, M_FLAGS);
setup_error_impl!(jn::SetupConnectionError, jn::SetupConnectionFlags, J_FLAGS);

fn u256(v: &Val) -> [u8; 32] {
    <[u8; 32]>::try_from(v.b()).unwrap()
}

macro_rules! msg_impl {
    ($t:ty, [$(($name:expr, $ty:expr)),*], |$v:ident| $build:expr, |$s:ident| $vals:expr, |$f:ident| $nan:expr) => {
        impl Real for $t {
            fn schema() -> Schema {
                Schema::Struct(vec![$(($name, $ty)),*], no_rule)
            }
            fn build($v: &[Val]) -> SResult<Self> {
                $build
            }
            fn vals(&self) -> Result<Vec<Val>, String> {
                let $s = self;
                Ok($vals)
            }
            fn same(&self, other: &Self) -> bool {
                let $f = self;
                self == other || $nan
            }
            fn copy(&self) -> Option<Self> {
                Some(self.clone())
            }
        }
    };
}

const B32: Ty = Ty::Bytes { len: 1, max: 32 };

msg_impl!(
    mining::OpenStandardMiningChannel,
    [("request_id", Ty::U32), ("user_identity", Ty::Str(255)), ("nominal_hash_rate", Ty::F32), ("max_target", Ty::U256)],
    |v| mining::OpenStandardMiningChannel::new(v[0].n() as u32, v[1].s(), f32::from_bits(v[2].n() as u32), u256(&v[3])),
    |s| vec![
        Val::N(s.request_id as u64),
        sval(s.user_identity.length as usize, &s.user_identity.data)?,
        Val::N(s.nominal_hash_rate.to_bits() as u64),
        Val::B(s.max_target.0.to_vec())
    ],
    |f| f.nominal_hash_rate.is_nan()
);
msg_impl!(
    mining::OpenStandardMiningChannelSuccess,
    [("request_id", Ty::U32), ("channel_id", Ty::U32), ("target", Ty::U256), ("extranonce_prefix", B32), ("group_channel_id", Ty::U32)],
    |v| mining::OpenStandardMiningChannelSuccess::new(v[0].n() as u32, v[1].n() as u32, u256(&v[2]), v[3].b(), v[4].n() as u32),
    |s| vec![
        Val::N(s.request_id as u64),
        Val::N(s.channel_id as u64),
        Val::B(s.target.0.to_vec()),
        bval(s.extranonce_prefix.length as usize, &s.extranonce_prefix.data)?,
        Val::N(s.group_channel_id as u64)
    ],
    |_f| false
);
msg_impl!(
    mining::OpenExtendedMiningChannel,
    [("request_id", Ty::U32), ("user_identity", Ty::Str(255)), ("nominal_hash_rate", Ty::F32), ("max_target", Ty::U256), ("min_extranonce_size", Ty::U16)],
    |v| mining::OpenExtendedMiningChannel::new(v[0].n() as u32, v[1].s(), f32::from_bits(v[2].n() as u32), u256(&v[3]), v[4].n() as u16),
    |s| vec![
        Val::N(s.request_id as u64),
        sval(s.user_identity.length as usize, &s.user_identity.data)?,
        Val::N(s.nominal_hash_rate.to_bits() as u64),
        Val::B(s.max_target.0.to_vec()),
        Val::N(s.min_extranonce_size as u64)
    ],
    |f| f.nominal_hash_rate.is_nan()
);
msg_impl!(
    mining::OpenExtendedMiningChannelSuccess,
    [("request_id", Ty::U32), ("channel_id", Ty::U32), ("target", Ty::U256), ("extranonce_size", Ty::U16), ("extranonce_prefix", B32)],
    |v| mining::OpenExtendedMiningChannelSuccess::new(v[0].n() as u32, v[1].n() as u32, u256(&v[2]), v[3].n() as u16, v[4].b()),
    |s| vec![
        Val::N(s.request_id as u64),
        Val::N(s.channel_id as u64),
        Val::B(s.target.0.to_vec()),
        Val::N(s.extranonce_size as u64),
        bval(s.extranonce_prefix.length as usize, &s.extranonce_prefix.data)?
    ],
    |_f| false
);
macro_rules! open_error_impl {
    ($t:ty) => {
        msg_impl!(
            $t,
            [("request_id", Ty::U32), ("error_code", Ty::Code(OPEN_CODES))],
            |v| <$t>::new(
                v[0].n() as u32,
                OPEN_ERRS.get(v[1].n() as usize).cloned().ok_or_else(bad_value)?
            ),
            |s| vec![Val::N(s.request_id as u64), Val::N(open_err_n(&s.error_code)?)],
            |_f| false
        );
    };
}
open_error_impl!(mining::OpenStandardMiningChannelError);
open_error_impl!(mining::OpenExtendedMiningChannelError);
msg_impl!(
    mining::UpdateChannel,
    [("channel_id", Ty::U32), ("nominal_hash_rate", Ty::F32), ("max_target", Ty::U256)],
    |v| mining::UpdateChannel::new(v[0].n() as u32, f32::from_bits(v[1].n() as u32), u256(&v[2])),
    |s| vec![
        Val::N(s.channel_id as u64),
        Val::N(s.nominal_hash_rate.to_bits() as u64),
        Val::B(s.max_target.0.to_vec())
    ],
    |f| f.nominal_hash_rate.is_nan()
);
msg_impl!(
    ChannelEndpointChanged,
    [("channel_id", Ty::U32)],
    |v| ChannelEndpointChanged::new(v[0].n() as u32),
    |s| vec![Val::N(s.channel_id as u64)],
    |_f| false
);
msg_impl!(
    SignatureNoiseMessage,
    [("version", Ty::U16), ("valid_from", Ty::U32), ("not_valid_after", Ty::U32), ("signature", Ty::Sig)],
    |v| Ok(SignatureNoiseMessage {
        version: v[0].n() as u16,
        valid_from: v[1].n() as u32,
        not_valid_after: v[2].n() as u32,
        signature: Signature::from_bytes(v[3].b()).map_err(|_| bad_value())?,
    }),
    |s| vec![
        Val::N(s.version as u64),
        Val::N(s.valid_from as u64),
        Val::N(s.not_valid_after as u64),
        Val::B(s.signature.to_bytes().to_vec())
    ],
    |_f| false
);
msg_impl!(
    Message,
    [("message_type", Ty::MsgType), ("payload", Ty::Bytes { len: 3, max: (1 << 24) - 1 })],
    |v| Ok(Message::new(message_types()[v[0].n() as usize], v[1].b())),
    |s| vec![
        Val::N(
            message_types()
                .iter()
                .position(|t| *t == s.message_type)
                .ok_or("a message type without a number")? as u64
        ),
        Val::B(s.payload.clone())
    ],
    |_f| false
);

#[allow(dead_code)]
pub fn unused() {
    let _ = str32;
}

// ---------------------------------------------------------------- type-erased operations

/// Outcome of a real decode: values, and whether exactly `expect` bytes were consumed.
pub struct Decoded {
    pub vals: Vec<Val>,
    pub consumed_exactly: bool,
}

pub trait Ops: Send + Sync {
    /// Decodes with a parser; `expect` is the number of bytes the model says are consumed.
    /// Outer error: the real value is inconsistent with itself.
    fn decode(&self, bytes: &[u8], expect: usize) -> Result<Result<Decoded, Error>, String> {
        self.decode_at(bytes, 0, false, expect)
    }
    /// Decodes what begins at `start`, which the parser is told or (`skip`) advanced to.
    fn decode_at(&self, bytes: &[u8], start: usize, skip: bool, expect: usize) -> Result<Result<Decoded, Error>, String>;
    /// The helper function `codec::deserialize`.
    fn decode_fn(&self, bytes: &[u8]) -> Result<Result<Vec<Val>, Error>, String>;
    /// Decodes and throws the result away.
    fn decode_only(&self, bytes: &[u8]) -> bool;
    /// Builds through the constructor; the values read back.
    fn build(&self, v: &[Val]) -> Result<Result<Vec<Val>, Error>, String>;
    /// Builds through the constructor and encodes into the writer.
    fn encode(&self, v: &[Val], w: &mut dyn Write) -> Result<SResult<usize>, Error>;
    /// `codec::serialize` of the built value.
    fn encode_fn(&self, v: &[Val]) -> Result<SResult<Vec<u8>>, Error>;
    /// Decodes, then encodes the result again.
    fn reencode(&self, bytes: &[u8]) -> Result<Vec<u8>, Error>;
    /// The library says that the built value equals the decoded one.
    fn same(&self, v: &[Val], bytes: &[u8]) -> Result<bool, Error>;
    fn has_eq(&self) -> bool;
    /// The library says that two built values are equal.
    fn equal(&self, a: &[Val], b: &[Val]) -> Result<bool, Error>;
    /// What a copy of the built value, and a copy of that, read back as and encode to.
    fn copied(&self, v: &[Val]) -> Result<Option<Vec<(Vec<Val>, Vec<u8>)>>, String>;
}

pub struct Op<T>(std::marker::PhantomData<fn() -> T>);

/// A writer that forwards to a trait object (encoders need a sized writer).
pub struct Fwd<'a>(pub &'a mut dyn Write);
impl Write for Fwd<'_> {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        self.0.write(b)
    }
    fn flush(&mut self) -> std::io::Result<()> {
        self.0.flush()
    }
}

impl<T: Real> Ops for Op<T> {
    fn decode_at(&self, bytes: &[u8], start: usize, skip: bool, expect: usize) -> Result<Result<Decoded, Error>, String> {
        let mut p = ByteParser::new(bytes, if skip { 0 } else { start });
        if skip {
            p.next_by(start).map_err(|e| format!("the parser cannot be advanced by {}: {}", start, e))?;
        }
        match T::deserialize(&mut p) {
            Err(e) => Ok(Err(e)),
            Ok(v) => {
                let consumed_exactly = start + expect <= bytes.len()
                    && p.next_by(bytes.len() - start - expect).is_ok()
                    && p.next_by(1).is_err();
                Ok(Ok(Decoded {
                    vals: v.vals()?,
                    consumed_exactly,
                }))
            }
        }
    }
    fn decode_fn(&self, bytes: &[u8]) -> Result<Result<Vec<Val>, Error>, String> {
        match deserialize::<T>(bytes) {
            Ok(v) => Ok(Ok(v.vals()?)),
            Err(e) => Ok(Err(e)),
        }
    }
    fn decode_only(&self, bytes: &[u8]) -> bool {
        deserialize::<T>(bytes).is_ok()
    }
    fn build(&self, v: &[Val]) -> Result<Result<Vec<Val>, Error>, String> {
        match T::build(v) {
            Ok(x) => Ok(Ok(x.vals()?)),
            Err(e) => Ok(Err(e)),
        }
    }
    fn encode(&self, v: &[Val], w: &mut dyn Write) -> Result<SResult<usize>, Error> {
        let x = T::build(v)?;
        Ok(x.serialize(&mut Fwd(w)))
    }
    fn encode_fn(&self, v: &[Val]) -> Result<SResult<Vec<u8>>, Error> {
        let x = T::build(v)?;
        Ok(serialize(&x))
    }
    fn reencode(&self, bytes: &[u8]) -> Result<Vec<u8>, Error> {
        let x = deserialize::<T>(bytes)?;
        serialize(&x)
    }
    fn same(&self, v: &[Val], bytes: &[u8]) -> Result<bool, Error> {
        let a = T::build(v)?;
        let b = deserialize::<T>(bytes)?;
        Ok(a.same(&b) && b.same(&a))
    }
    fn has_eq(&self) -> bool {
        T::has_eq()
    }
    fn equal(&self, a: &[Val], b: &[Val]) -> Result<bool, Error> {
        Ok(T::build(a)?.same(&T::build(b)?))
    }
    fn copied(&self, v: &[Val]) -> Result<Option<Vec<(Vec<Val>, Vec<u8>)>>, String> {
        let x = T::build(v).map_err(|e| format!("a valid value cannot be built: {}", e))?;
        let y = match x.copy() {
            Some(y) => y,
            None => return Ok(None),
        };
        let mut out = vec![];
        let z = y.copy();
        for c in [Some(&x), Some(&y), z.as_ref()].into_iter().flatten() {
            if !x.same(c) && T::has_eq() && x.same(&x) {
                return Err("a copy differs from the value".into());
            }
            out.push((c.vals()?, serialize(c).map_err(|e| format!("a copy cannot be encoded: {}", e))?));
        }
        Ok(Some(out))
    }
}

pub trait FrameOps: Send + Sync {
    fn message_type(&self) -> MessageType;
    fn frame(&self, v: &[Val]) -> Result<SResult<Message>, Error>;
    fn unframe(&self, m: &Message) -> Result<Result<Vec<Val>, Error>, String>;
}
pub struct FrameOp<T>(std::marker::PhantomData<fn() -> T>);
impl<T: Real + Frameable> FrameOps for FrameOp<T> {
    fn message_type(&self) -> MessageType {
        T::message_type()
    }
    fn frame(&self, v: &[Val]) -> Result<SResult<Message>, Error> {
        let x = T::build(v)?;
        Ok(frame(&x))
    }
    fn unframe(&self, m: &Message) -> Result<Result<Vec<Val>, Error>, String> {
        match unframe::<T>(m) {
            Ok(v) => Ok(Ok(v.vals()?)),
            Err(e) => Ok(Err(e)),
        }
    }
}

pub struct Kind {
    pub id: u64,
    pub name: &'static str,
    pub schema: Schema,
    pub ops: Box<dyn Ops>,
    /// Index in MSG_TYPES of the message's own type, and the framing operations.
    pub framed: Option<(usize, Box<dyn FrameOps>)>,
}

fn plain<T: Real>(name: &'static str) -> Kind {
    Kind {
        id: crate::engine::hs(name),
        name,
        schema: T::schema(),
        ops: Box::new(Op::<T>(std::marker::PhantomData)),
        framed: None,
    }
}
fn framed<T: Real + Frameable>(name: &'static str, mtype: usize) -> Kind {
    let mut k = plain::<T>(name);
    k.framed = Some((mtype, Box::new(FrameOp::<T>(std::marker::PhantomData))));
    k
}

/// Wire types.
pub fn type_kinds() -> Vec<Kind> {
    vec![
        plain::<bool>("bool"),
        plain::<u8>("u8"),
        plain::<u16>("u16"),
        plain::<u32>("u32"),
        plain::<f32>("f32"),
        plain::<U24>("U24"),
        plain::<U256>("U256"),
        plain::<STR0_32>("STR0_32"),
        plain::<STR0_255>("STR0_255"),
        plain::<B0_31>("B0_31"),
        plain::<B0_32>("B0_32"),
        plain::<B0_255>("B0_255"),
        plain::<B0_64K>("B0_64K"),
        plain::<B0_16M>("B0_16M"),
        plain::<Protocol>("Protocol"),
        plain::<SetupConnectionErrorCode>("SetupConnectionErrorCode"),
        plain::<OpenMiningChannelErrorCode>("OpenMiningChannelErrorCode"),
        plain::<mining::SetupConnectionFlags>("mining::SetupConnectionFlags"),
        plain::<mining::SetupConnectionSuccessFlags>("mining::SetupConnectionSuccessFlags"),
        plain::<jn::SetupConnectionFlags>("job_negotiation::SetupConnectionFlags"),
        plain::<jn::SetupConnectionSuccessFlags>("job_negotiation::SetupConnectionSuccessFlags"),
        plain::<Signature>("Signature"),
    ]
}

/// Messages (and the frame itself).
pub fn message_kinds() -> Vec<Kind> {
    vec![
        framed::<mining::SetupConnection>("mining::SetupConnection", 0),
        framed::<jn::SetupConnection>("job_negotiation::SetupConnection", 0),
        framed::<common::SetupConnection>("common::SetupConnection", 0),
        framed::<mining::SetupConnectionSuccess>("mining::SetupConnectionSuccess", 1),
        framed::<jn::SetupConnectionSuccess>("job_negotiation::SetupConnectionSuccess", 1),
        framed::<mining::SetupConnectionError>("mining::SetupConnectionError", 2),
        framed::<jn::SetupConnectionError>("job_negotiation::SetupConnectionError", 2),
        framed::<ChannelEndpointChanged>("ChannelEndpointChanged", 3),
        framed::<mining::OpenStandardMiningChannel>("OpenStandardMiningChannel", 4),
        framed::<mining::OpenStandardMiningChannelSuccess>("OpenStandardMiningChannelSuccess", 5),
        framed::<mining::OpenStandardMiningChannelError>("OpenStandardMiningChannelError", 6),
        framed::<mining::OpenExtendedMiningChannel>("OpenExtendedMiningChannel", 7),
        framed::<mining::OpenExtendedMiningChannelSuccess>("OpenExtendedMiningChannelSuccess", 8),
        framed::<mining::OpenExtendedMiningChannelError>("OpenExtendedMiningChannelError", 9),
        framed::<mining::UpdateChannel>("UpdateChannel", 10),
        plain::<SignatureNoiseMessage>("SignatureNoiseMessage"),
        plain::<Message>("Message"),
    ]
}

pub fn all_kinds() -> Vec<Kind> {
    let mut v = type_kinds();
    v.extend(message_kinds());
    v
}

pub fn kind(name: &str) -> Kind {
    all_kinds()
        .into_iter()
        .find(|k| k.name == name)
        .unwrap_or_else(|| panic!("harness: no kind {}", name))
}
