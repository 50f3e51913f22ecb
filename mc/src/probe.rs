//! The known findings, one representative each, run alone (the driver limits time and memory).
//! Exit 0: behaves as the property asks; 3: fails in a way that is not the listed one;
//! 4: fails as listed. Running out of the driver's limits is failing as listed for K1 and K4.
use crate::choice::{OutOfChoices, within};
use bnf::{DepthBounded, Expression, GenerationStrategy, Grammar, Production};

/// Always takes the alternative with this text; gives up after 5000 choices.
struct Fixed(&'static str, u32);
impl GenerationStrategy for Fixed {
    fn choose<'p>(&mut self, p: &'p Production, _: usize) -> Option<&'p Expression> {
        self.1 += 1;
        if self.1 > 5000 {
            return None;
        }
        p.rhs_iter().find(|e| e.to_string() == self.0).or_else(|| p.rhs_iter().next())
    }
}

fn parsed(text: &str, input: &str) -> Option<String> {
    let g: Grammar = text.parse().unwrap();
    let p = g.build_parser().unwrap();
    p.parse_input(input).next().map(|t| crate::refg::canon(&t))
}

pub fn run(which: &str) -> i32 {
    let verdict = |ok: bool| if ok { 0 } else { 3 };
    match which {
        "K1" => verdict(parsed("<a> ::= <a> | 'z'", "zz").is_none()),
        "K4" => verdict(parsed("<S> ::= <A> | <S> <S>\n<A> ::= 'b' | ''", "bbb").is_some()),
        "K2" => {
            let g: Grammar = "<s> ::= 'a' | <l>\n<l> ::= <l>".parse().unwrap();
            let mut s = Fixed("<l>", 0);
            let r = g.generate_seeded_with_strategy(&mut s);
            match r {
                _ if s.1 > 5000 => 4,
                Err(bnf::Error::GenerateError(_)) => 0,
                Ok(t) if t == "a" => 0,
                _ => 3,
            }
        }
        "K3" => {
            // draws that always favour the last alternative
            let g: Grammar = "<s> ::= <b> | <s> <b>\n<b> ::= 'x'".parse().unwrap();
            let mut left = 5000u32;
            rand::mc_oracle::set(Some(Box::new(move |bits| {
                if left == 0 {
                    std::panic::resume_unwind(Box::new(OutOfChoices));
                }
                left -= 1;
                Some(crate::choice::grid(1, 2, bits))
            })));
            let r = within(|| g.generate_seeded_with_strategy(&mut DepthBounded::from_seed(0, [0; 32])));
            rand::mc_oracle::set(None);
            match r {
                None => 4,
                Some(Ok(t)) if t.chars().all(|c| c == 'x') && !t.is_empty() => 0,
                Some(_) => 3,
            }
        }
        _ => 2,
    }
}
