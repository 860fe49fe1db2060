//@ source src/se.rs
//@ rewrite `v as f64` => `vx_widen(v)`
//@ rewrite `v.to_string()` => `vx_string(v)`
//@ rewrite `variant.to_string()` => `vx_string(variant)`
//@ rewrite `ser::Error::custom` => `Error::custom`
//@ struct KdlValueSerializer
//@ fn <ser::Serializer for KdlValueSerializer>::serialize_bool ret r
    ensures r matches Ok(x) && is_value(x, Data::Bool(v)),
//@ end
//@ fn <ser::Serializer for KdlValueSerializer>::serialize_i8 ret r
    ensures r matches Ok(x) && is_value(x, Data::Int(v as int)),
//@ end
//@ fn <ser::Serializer for KdlValueSerializer>::serialize_i16 ret r
    ensures r matches Ok(x) && is_value(x, Data::Int(v as int)),
//@ end
//@ fn <ser::Serializer for KdlValueSerializer>::serialize_i32 ret r
    ensures r matches Ok(x) && is_value(x, Data::Int(v as int)),
//@ end
//@ fn <ser::Serializer for KdlValueSerializer>::serialize_i64 ret r
    ensures r matches Ok(x) && is_value(x, Data::Int(v as int)),
//@ end
//@ fn <ser::Serializer for KdlValueSerializer>::serialize_u8 ret r
    ensures r matches Ok(x) && is_value(x, Data::Int(v as int)),
//@ end
//@ fn <ser::Serializer for KdlValueSerializer>::serialize_u16 ret r
    ensures r matches Ok(x) && is_value(x, Data::Int(v as int)),
//@ end
//@ fn <ser::Serializer for KdlValueSerializer>::serialize_u32 ret r
    ensures r matches Ok(x) && is_value(x, Data::Int(v as int)),
//@ end
//@ fn <ser::Serializer for KdlValueSerializer>::serialize_u64 ret r
    ensures r matches Ok(x) && is_value(x, Data::Int(v as int)),
//@ end
//@ fn <ser::Serializer for KdlValueSerializer>::serialize_f32 ret r
    ensures r matches Ok(x) && is_value(x, Data::Float(widened(v))),
//@ end
//@ fn <ser::Serializer for KdlValueSerializer>::serialize_f64 ret r
    ensures r matches Ok(x) && is_value(x, Data::Float(v)),
//@ end
//@ fn <ser::Serializer for KdlValueSerializer>::serialize_str ret r
    ensures r matches Ok(x) && is_value(x, Data::Text(v@)),
//@ end
//@ fn <ser::Serializer for KdlValueSerializer>::serialize_none ret r
    ensures r matches Ok(x) && is_value(x, Data::Null),
//@ end
//@ fn <ser::Serializer for KdlValueSerializer>::serialize_unit ret r
    ensures r matches Ok(x) && is_value(x, Data::Null),
//@ end
//@ fn <ser::Serializer for KdlValueSerializer>::serialize_unit_variant ret r
    ensures r matches Ok(x) && is_value(x, Data::Text(variant@)),
//@ end
//@ fn <ser::Serializer for KdlValueSerializer>::serialize_unit_struct ret r
    ensures r matches Ok(x) && is_value(x, Data::Null),
//@ end
