use crate::ctx::Task;
#[cfg(any(feature = "c01", feature = "c02", feature = "c10"))]
pub mod build;
#[cfg(any(feature = "c09", feature = "c11", feature = "c13", feature = "c24"))]
pub mod conv;
#[cfg(any(feature = "c03", feature = "c04", feature = "c25"))]
pub mod grid;
#[cfg(any(feature = "c07", feature = "c08", feature = "c12", feature = "c22"))]
pub mod nav;
#[cfg(feature = "c26")]
pub mod mem;
#[cfg(feature = "c28")]
pub mod own;
pub mod num;
#[cfg(any(feature = "c05", feature = "c06", feature = "c23"))]
pub mod order;
#[cfg(any(feature = "smoke", feature = "c21"))]
pub mod smoke;

pub fn tasks(prop: &str) -> Option<Vec<Task>> {
    let mut v = vec![];
    macro_rules! p {
        ($($f:literal $m:ident $n:ident)*) => {
            match prop {
                $( #[cfg(feature = $f)] x if x.eq_ignore_ascii_case($f) => $m::$n(&mut v), )*
                #[cfg(feature = "smoke")]
                "smoke" => smoke::obs_tasks(&mut v, false),
                #[cfg(feature = "smoke")]
                "portable" => smoke::obs_tasks(&mut v, true),
                #[cfg(feature = "c27")]
                x if x.eq_ignore_ascii_case("c27") => {
                    // the tasks of these properties, over the types a user plugs in
                    for p in ["c01", "c02", "c03", "c04", "c05", "c06", "c07", "c08", "c09", "c10", "c11", "c12", "c23", "c24", "c25"] {
                        for mut t in tasks(p).unwrap() {
                            t.name = format!("{} {}", p.to_uppercase(), t.name);
                            v.push(t);
                        }
                    }
                }
                _ => return None,
            }
        };
    }
    p! {
        "c01" build c01 "c02" build c02 "c10" build c10
        "c03" grid c03 "c04" grid c04 "c25" grid c25
        "c05" order c05 "c06" order c06 "c23" order c23
        "c07" nav c07 "c08" nav c08 "c12" nav c12 "c22" nav c22
        "c09" conv c09 "c11" conv c11 "c13" conv c13 "c24" conv c24
        "c14" num c14 "c15" num c15 "c16" num c16 "c17" num c17 "c18" num c18
        "c21" smoke c21
        "c26" mem c26 "c28" own c28
    }
    Some(v)
}
