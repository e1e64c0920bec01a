//! Identifiers under every case rule, against the rules as documented.
use instant_xml::{from_str, to_string, FromXml, ToXml};

use crate::rng::Rng;
use crate::xml::{parse, DEFAULT_LIM};
use crate::{fail, R};

fn capital(w: &str) -> String {
    w[..1].to_ascii_uppercase() + &w[1..]
}
fn small(w: &str) -> String {
    w[..1].to_ascii_lowercase() + &w[1..]
}
fn field_name(rule: &str, id: &str) -> String {
    let id = id.strip_prefix("r#").unwrap_or(id);
    let pascal: String = id.split('_').filter(|w| !w.is_empty()).map(capital).collect();
    match rule {
        "lowercase" | "snake_case" => id.to_string(),
        "UPPERCASE" | "SCREAMING_SNAKE_CASE" => id.to_ascii_uppercase(),
        "PascalCase" => pascal,
        "camelCase" => small(&pascal),
        "kebab-case" => id.split('_').collect::<Vec<_>>().join("-"),
        "SCREAMING-KEBAB-CASE" => id.to_ascii_uppercase().split('_').collect::<Vec<_>>().join("-"),
        _ => unreachable!(),
    }
}
fn variant_name(rule: &str, id: &str) -> String {
    let mut snake = String::new();
    for (k, c) in id.chars().enumerate() {
        if k > 0 && c.is_uppercase() {
            snake.push('_');
        }
        snake.extend(c.to_lowercase());
    }
    match rule {
        "PascalCase" => id.to_string(),
        "lowercase" => id.to_ascii_lowercase(),
        "UPPERCASE" => id.to_ascii_uppercase(),
        "camelCase" => small(id),
        "snake_case" => snake,
        "SCREAMING_SNAKE_CASE" => snake.to_ascii_uppercase(),
        "kebab-case" => snake.replace('_', "-"),
        "SCREAMING-KEBAB-CASE" => snake.to_ascii_uppercase().replace('_', "-"),
        _ => unreachable!(),
    }
}

macro_rules! one {
    ($m:ident $s:ident $e:ident $h:ident $rule:tt [$($a:ident)*] [$($x:ident)*] [$($f:ident)*] [$($v:ident)*]) => {
        mod $m {
            use super::*;
            #[derive(Debug, PartialEq, FromXml, ToXml)]
            #[xml(rename_all = $rule)]
            #[allow(non_snake_case)]
            pub struct $s {
                $(#[xml(attribute)] $a: u8,)*
                $($f: u8,)*
                $($x: u8,)*
            }
            #[derive(Debug, PartialEq, FromXml, ToXml, Clone, Copy)]
            #[xml(scalar, rename_all = $rule)]
            #[allow(non_camel_case_types)]
            pub enum $e { $($v),* }
            #[derive(Debug, PartialEq, FromXml, ToXml)]
            pub struct $h { v: Vec<$e> }

            pub fn fields(g: &mut Rng) -> R {
                let v = $s { $($a: g.next() as u8,)* $($f: g.next() as u8,)* $($x: g.next() as u8,)* };
                let doc = match to_string(&v) {
                    Ok(d) => d,
                    Err(e) => fail!(stringify!($s), "refused to write: {e:?}"),
                };
                let p = match parse(&doc, DEFAULT_LIM) {
                    Ok(p) => p,
                    Err(e) => fail!(doc, "{e:?}"),
                };
                let want: Vec<(String, String)> = vec![$((field_name($rule, stringify!($a)), v.$a.to_string())),*];
                let have: Vec<(String, String)> = p.attrs.iter().map(|a| (a.name.clone(), a.val.clone())).collect();
                if have != want {
                    fail!(doc, "attributes by the rule {}: {have:?} instead of {want:?}", $rule);
                }
                let want: Vec<(String, String)> = vec![$((field_name($rule, stringify!($f)), v.$f.to_string()),)* $((field_name($rule, stringify!($x)), v.$x.to_string()),)*];
                let have: Vec<(String, String)> = p.els().map(|a| (a.name.clone(), a.text())).collect();
                if have != want {
                    fail!(doc, "elements by the rule {}: {have:?} instead of {want:?}", $rule);
                }
                match from_str::<$s>(&doc) {
                    Ok(b) if b == v => Ok(()),
                    b => fail!(doc, "read back as {b:?}"),
                }
            }
            pub fn variants(g: &mut Rng) -> R {
                let all = [$(($e::$v, stringify!($v))),*];
                let mut v = $h { v: vec![] };
                let mut want = vec![];
                for _ in 0..8 {
                    let (x, id) = *g.pick(&all);
                    v.v.push(x);
                    want.push(variant_name($rule, id));
                }
                let doc = match to_string(&v) {
                    Ok(d) => d,
                    Err(e) => fail!(stringify!($h), "refused to write: {e:?}"),
                };
                let p = match parse(&doc, DEFAULT_LIM) {
                    Ok(p) => p,
                    Err(e) => fail!(doc, "{e:?}"),
                };
                let have: Vec<String> = p.els().map(|a| a.text()).collect();
                if have != want {
                    fail!(doc, "variants by the rule {}: {have:?} instead of {want:?}", $rule);
                }
                match from_str::<$h>(&doc) {
                    Ok(b) if b == v => Ok(()),
                    b => fail!(doc, "read back as {b:?}"),
                }
            }
        }
    };
}
macro_rules! corpus {
    ($($m:ident $s:ident $e:ident $h:ident $rule:tt $x:tt)* ; $a:tt $f:tt $v:tt) => {
        $(one! { $m $s $e $h $rule $a $x $f $v })*
        pub fn check(i: u64, g: &mut Rng) -> R {
            let all: &[fn(&mut Rng) -> R] = &[$($m::fields, $m::variants),*];
            all[i as usize % all.len()](g)
        }
    };
}
corpus! {
    lower Lower LowerE LowerH "lowercase" [_lead_one __lead_two _x]
    upper Upper UpperE UpperH "UPPERCASE" [_lead_one __lead_two _x]
    pascal Pascal PascalE PascalH "PascalCase" [_lead_one __lead_two _lead_ _x_y]
    camel Camel CamelE CamelH "camelCase" [_lead_one __lead_two _lead_ _x_y]
    snake Snake SnakeE SnakeH "snake_case" [_lead_one __lead_two _x]
    scream Scream ScreamE ScreamH "SCREAMING_SNAKE_CASE" [_lead_one __lead_two _x]
    kebab Kebab KebabE KebabH "kebab-case" []
    screamkebab ScreamKebab ScreamKebabE ScreamKebabH "SCREAMING-KEBAB-CASE" [];
    [p at_one at_two_three at_a_b_c_d at_trail_ at__twice r#as]
    [q one_two one_two_three a_b_c_d_e_f_g trail_ trail_two__ gap__in gap___three x1 x1_y2 x_1_2 r#type r#match r#loop_
     long_name_with_many_words_that_goes_on_and_on_and_on mixedCase Already_Upper ABC aBC_dEF t_r_ue r_r r0_0r zzz]
    [A Bc DeF GHI JkLmNo P1 Q2Rs T3u4V AbCdEfGhIjKlMn UTF8String X_Y X_Yz _Lead Trail_ Under_score_d lowerFirst alllower ABCDEF HTTPServer IPv6Addr V1_0 R]
}
