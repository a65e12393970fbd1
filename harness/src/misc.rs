pub fn child(r: &str, a: &[String]) -> i32 {
    match r {
        "c04" => crate::crash::child_c04(a),
        "c16" => crate::owner::child(a),
        _ => 9,
    }
}
