//! Contracts of the foreign functions that Pen's own modules call, which other
//! harnesses hold the Rust functions to.

use crate::machine::{Foreign, Machine, Stop, Value};

fn number(value: &Value) -> Result<f64, Stop> {
    match value {
        Value::Number(number) => Ok(*number),
        value => Err(Stop::Stuck(format!("{value:?} is no number"))),
    }
}

fn text(machine: &Machine, value: &Value) -> Result<String, Stop> {
    Ok(String::from_utf8_lossy(&machine.bytes(value)?).into_owned())
}

use verif_prelude as _;

extern "C" {
    fn _pen_prelude_combine_hashes(one: ffi::Number, other: ffi::Number) -> ffi::Number;
    fn _pen_prelude_hash_number(number: ffi::Number) -> ffi::Number;
    fn _pen_prelude_hash_string(string: ffi::ByteString) -> ffi::Number;
    fn _pen_prelude_hash_to_index(hash: ffi::Number, layer: ffi::Number, level: ffi::Number) -> ffi::Number;
}

fn combine(one: f64, other: f64) -> f64 {
    unsafe { _pen_prelude_combine_hashes(one.into(), other.into()) }.into()
}

fn hash_number(number: f64) -> f64 {
    unsafe { _pen_prelude_hash_number(number.into()) }.into()
}

fn hash_string(string: Vec<u8>) -> f64 {
    unsafe { _pen_prelude_hash_string(string.into()) }.into()
}

thread_local! {
    /// Bits of hashes in their first layer that are taken as the same for all keys,
    /// so that maps of a few keys are deep.
    static SAME_BITS: std::cell::Cell<u64> = const { std::cell::Cell::new(0) };
}

pub fn set_same_bits(bits: u64) {
    SAME_BITS.with(|cell| cell.set(bits));
}

fn hash_to_index(hash: f64, layer: f64, level: f64) -> f64 {
    let index = unsafe { _pen_prelude_hash_to_index(hash.into(), layer.into(), level.into()) };
    let same = if layer == 1.0 { SAME_BITS.with(|cell| cell.get()) } else { 0 };

    ((f64::from(index) as u64 - 1) & !(same >> (5 * (level as u64 - 1))) & 31) as f64 + 1.0
}

fn debug_number(number: f64) -> String {
    number.to_string()
}

fn builder(machine: &Machine, parts: Vec<Value>) -> Value {
    let list = parts.into_iter().rev().fold(Value::None, |rest, part| {
        Value::Variant(std::rc::Rc::new((mir::types::Type::Record(mir::types::Record::new("part")), machine.record("part", vec![part, rest]))))
    });

    machine.record("packages/core/String.pen:stringBuilder", vec![list])
}

/// The strings in a builder, each of which is a new reference.
fn parts(machine: &Machine, value: &Value) -> Result<Vec<Value>, Stop> {
    let mut parts = vec![];
    let mut rest = machine.fields(value)?[0].clone();

    while let Value::Variant(variant) = &rest {
        let fields = machine.fields(&variant.1)?;
        parts.push(machine.clone_value(&fields[0])?);
        rest = fields[1].clone();
    }
    Ok(parts)
}

fn view(machine: &Machine, arguments: &[Value]) -> Result<Vec<u8>, Stop> {
    let bytes = machine.bytes(&arguments[0])?;
    let start = number(&arguments[1])?.max(1.0) as usize - 1;
    let end = (number(&arguments[2])? as usize).min(bytes.len());

    Ok(bytes.get(start..end).unwrap_or_default().to_vec())
}

pub fn find(name: &str) -> Option<Foreign> {
    Some(match name {
        "_pen_prelude_combine_hashes" => |_, arguments| Ok(Value::Number(combine(number(&arguments[0])?, number(&arguments[1])?))),
        "_pen_prelude_hash_number" => |_, arguments| Ok(Value::Number(hash_number(number(&arguments[0])?))),
        "_pen_prelude_hash_string" => |machine, arguments| Ok(Value::Number(hash_string(machine.bytes(&arguments[0])?))),
        "_pen_prelude_hash_to_index" => |_, arguments| {
            let level = number(&arguments[2])?;
            if !(1..=13).any(|number| number as f64 == level) {
                return Err(Stop::Stuck(format!("a hash has no level {level}")));
            }
            Ok(Value::Number(hash_to_index(number(&arguments[0])?, number(&arguments[1])?, level)))
        },
        "_pen_prelude_debug_number" => |machine, arguments| Ok(machine.string(debug_number(number(&arguments[0])?).into_bytes())),
        "_pen_prelude_equal_strings" => |machine, arguments| Ok(Value::Boolean(machine.bytes(&arguments[0])? == machine.bytes(&arguments[1])?)),
        "_pen_debug" => |machine, arguments| {
            let message = machine.bytes(&arguments[0])?;
            let mut output = machine.output.borrow_mut();
            output.extend(message);
            output.push(b'\n');
            Ok(Value::None)
        },
        "_pen_spawn" => |machine, arguments| {
            if !machine.is_shared(&arguments[0]) {
                return Err(Stop::Stuck("another thread is given a function which is not shared".into()));
            }
            machine.clone_value(&arguments[0])
        },
        "_pen_core_string_starts_with" => |machine, arguments| {
            Ok(Value::Boolean(machine.bytes(&arguments[0])?.starts_with(&machine.bytes(&arguments[1])?)))
        },
        "_pen_core_byte_length" => |machine, arguments| Ok(Value::Number(machine.bytes(&arguments[0])?.len() as f64)),
        "_pen_core_byte_slice" => |machine, arguments| {
            let bytes = machine.bytes(&arguments[0])?;
            let start = (number(&arguments[1])?.max(1.0) as usize - 1).min(bytes.len());
            let end = (number(&arguments[2])?.max(0.0) as usize).min(bytes.len());
            Ok(machine.string(if start < end { bytes[start..end].to_vec() } else { vec![] }))
        },
        "_pen_core_utf8_length" => |machine, arguments| Ok(Value::Number(text(machine, &arguments[0])?.chars().count() as f64)),
        "_pen_core_utf8_contains" => |machine, arguments| {
            Ok(Value::Boolean(text(machine, &arguments[0])?.contains(&text(machine, &arguments[1])?)))
        },
        "_pen_core_convert_number_to_string" => |machine, arguments| Ok(machine.string(debug_number(number(&arguments[0])?).into_bytes())),
        "_pen_core_absolute" => |_, arguments| Ok(Value::Number(number(&arguments[0])?.abs())),
        "_pen_core_floor" => |_, arguments| Ok(Value::Number(number(&arguments[0])?.floor())),
        "_pen_core_ceil" => |_, arguments| Ok(Value::Number(number(&arguments[0])?.ceil())),
        "_pen_core_round" => |_, arguments| Ok(Value::Number(number(&arguments[0])?.round())),
        "_pen_core_truncate" => |_, arguments| Ok(Value::Number(number(&arguments[0])?.trunc())),
        "_pen_core_fraction" => |_, arguments| Ok(Value::Number(number(&arguments[0])?.fract())),
        "_pen_core_infinity" => |_, _| Ok(Value::Number(f64::INFINITY)),
        "_pen_core_nan" => |_, _| Ok(Value::Number(f64::NAN)),
        "_pen_core_epsilon" => |_, _| Ok(Value::Number(f64::EPSILON)),
        "_pen_core_is_nan" => |_, arguments| Ok(Value::Boolean(number(&arguments[0])?.is_nan())),
        "_pen_core_power" => |_, arguments| Ok(Value::Number(number(&arguments[0])?.powf(number(&arguments[1])?))),
        "_pen_core_remainder" => |_, arguments| Ok(Value::Number(number(&arguments[0])? % number(&arguments[1])?)),
        "_pen_core_square_root" => |_, arguments| Ok(Value::Number(number(&arguments[0])?.sqrt())),
        "_pen_core_exponential" => |_, arguments| Ok(Value::Number(number(&arguments[0])?.exp())),
        "_pen_core_character_to_code_point" => |machine, arguments| {
            Ok(Value::Number(text(machine, &arguments[0])?.chars().next().map_or(-1.0, |character| character as u32 as f64)))
        },
        "_pen_core_character_from_code_point" => |machine, arguments| {
            let character = char::from_u32(number(&arguments[0])? as u32).unwrap_or(char::REPLACEMENT_CHARACTER);
            Ok(machine.string(character.to_string().into_bytes()))
        },
        "_pen_core_string_builder_create" => |machine, _| Ok(builder(machine, vec![])),
        "_pen_core_string_builder_append" => |machine, arguments| {
            let mut parts = parts(machine, &arguments[0])?;
            parts.push(machine.clone_value(&arguments[1])?);
            Ok(builder(machine, parts))
        },
        "_pen_core_string_builder_build" => |machine, arguments| {
            let parts = parts(machine, &arguments[0])?;
            let bytes = parts.iter().map(|part| machine.bytes(part)).collect::<Result<Vec<_>, _>>()?;
            for part in &parts {
                machine.drop_value(part)?;
            }
            Ok(machine.string(bytes.join(&machine.bytes(&arguments[1])?[..])))
        },
        "_pen_core_view_starts_with" => |machine, arguments| {
            let view = view(machine, &arguments[..3])?;
            Ok(Value::Boolean(view.starts_with(&machine.bytes(&arguments[3])?)))
        },
        "_pen_core_view_to_string" => |machine, arguments| Ok(machine.string(view(machine, arguments)?)),
        "_pen_core_utf8_starts_with" => |machine, arguments| {
            Ok(Value::Boolean(text(machine, &arguments[0])?.starts_with(&text(machine, &arguments[1])?)))
        },
        "_pen_core_utf8_ends_with" => |machine, arguments| {
            Ok(Value::Boolean(text(machine, &arguments[0])?.ends_with(&text(machine, &arguments[1])?)))
        },
        "_pen_core_utf8_replace" => |machine, arguments| {
            let (string, pattern, replacement) =
                (text(machine, &arguments[0])?, text(machine, &arguments[1])?, text(machine, &arguments[2])?);
            Ok(machine.string(string.replace(&pattern, &replacement).into_bytes()))
        },
        "_pen_json_decode_number" => |machine, arguments| {
            Ok(Value::Number(text(machine, &arguments[0])?.parse().unwrap_or(f64::NAN)))
        },
        "_pen_json_encode_number" => |machine, arguments| Ok(machine.string(number(&arguments[0])?.to_string().into_bytes())),
        "_pen_html_encode_text" => |machine, arguments| {
            let text = text(machine, &arguments[0])?;
            Ok(machine.string(text.replace('&', "&amp;").replace('<', "&lt;").replace('>', "&gt;").into_bytes()))
        },
        "_pen_html_encode_attribute" => |machine, arguments| {
            let text = text(machine, &arguments[0])?.replace('&', "&amp;").replace('<', "&lt;").replace('>', "&gt;");
            Ok(machine.string(text.replace('"', "&quot;").replace('\'', "&#x27;").into_bytes()))
        },
        _ => return None,
    })
}
