//! Stand-in for `cfg-load`: a grammar together with character classes.
pub mod advanced {
    use cfg::{Cfg, Symbol};
    use std::collections::BTreeMap;

    /// Which terminals each character may stand for.
    #[derive(Clone, Debug, Default)]
    pub struct LexerMap {
        classes: Vec<(Symbol, Vec<char>)>,
        map: Option<BTreeMap<char, Vec<Symbol>>>,
    }

    impl LexerMap {
        pub fn from_classes(classes: Vec<(Symbol, Vec<char>)>) -> Self {
            LexerMap { classes, map: None }
        }
        pub fn compute(&mut self) {
            let mut map: BTreeMap<char, Vec<Symbol>> = BTreeMap::new();
            for (sym, chars) in &self.classes {
                for &ch in chars {
                    map.entry(ch).or_default().push(*sym);
                }
            }
            self.map = Some(map);
        }
        pub fn get(&self, ch: char) -> &[Symbol] {
            let map = self.map.as_ref().expect("compute() comes first");
            map.get(&ch).map_or(&[], |v| &v[..])
        }
    }

    #[derive(Clone, Debug)]
    pub struct AdvancedGrammar {
        pub cfg: Cfg,
        pub lexer_map: LexerMap,
    }
}
