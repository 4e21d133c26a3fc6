//! Index of the items of the repository's crates.
use std::collections::HashMap;

#[derive(Clone)]
pub struct FnItem {
    pub krate: String,
    pub module: String,
    pub ty: Option<String>,
    pub sig: syn::Signature,
    pub block: syn::Block,
    pub has_self: bool,
}

pub struct Repo {
    root: String,
    crates: HashMap<String, Vec<(String, syn::File)>>,
    pub world: crate::world::World,
    fns: HashMap<String, Vec<FnItem>>,
}

fn is_test(attrs: &[syn::Attribute]) -> bool {
    attrs.iter().any(|a| {
        a.path().is_ident("cfg") && quote::ToTokens::to_token_stream(a).to_string().contains("test")
            || a.path().is_ident("test")
    })
}

pub fn type_name(t: &syn::Type) -> Option<String> {
    match t {
        syn::Type::Path(p) => p.path.segments.last().map(|s| s.ident.to_string()),
        syn::Type::Reference(r) => type_name(&r.elem),
        _ => None,
    }
}

impl Repo {
    pub fn new(root: &str) -> Self {
        Repo { root: root.to_string(), crates: HashMap::new(), world: Default::default(), fns: HashMap::new() }
    }

    fn load(&mut self, krate: &str) {
        if self.crates.contains_key(krate) {
            return;
        }
        let mut files = Vec::new();
        let mut todo = vec![("lib".to_string(), format!("{}/{}/src/lib.rs", self.root, krate))];
        while let Some((m, path)) = todo.pop() {
            let Ok(text) = std::fs::read_to_string(&path) else { continue };
            let Ok(file) = syn::parse_file(&text) else { continue };
            let base = std::path::Path::new(&path).parent().unwrap().to_path_buf();
            for it in &file.items {
                if let syn::Item::Mod(md) = it {
                    if md.content.is_none() && !is_test(&md.attrs) {
                        let n = md.ident.to_string();
                        let cands = if m == "lib" {
                            vec![base.join(format!("{n}.rs")), base.join(&n).join("mod.rs")]
                        } else {
                            vec![base.join(&m).join(format!("{n}.rs")), base.join(format!("{n}.rs")), base.join(&n).join("mod.rs")]
                        };
                        for p in cands {
                            if p.exists() {
                                todo.push((n.clone(), p.to_string_lossy().to_string()));
                                break;
                            }
                        }
                    }
                }
            }
            files.push((m, file));
        }
        files.sort_by(|a, b| a.0.cmp(&b.0));
        self.crates.insert(krate.to_string(), files);
    }

    fn walk<'a>(module: &str, items: &'a [syn::Item], f: &mut dyn FnMut(&str, &'a syn::Item)) {
        for it in items {
            if let syn::Item::Mod(md) = it {
                if is_test(&md.attrs) {
                    continue;
                }
                if let Some((_, inner)) = &md.content {
                    Self::walk(&md.ident.to_string(), inner, f);
                }
            }
            f(module, it);
        }
    }

    /// struct / enum / const / type; `path` is Name or module::Name.
    pub fn item(&mut self, krate: &str, path: &str) -> Option<syn::Item> {
        self.load(krate);
        let (want_mod, name) = match path.split_once("::") {
            Some((m, n)) => (Some(m), n),
            None => (None, path),
        };
        let mut res = Vec::new();
        for (m, f) in &self.crates[krate] {
            Self::walk(m, &f.items, &mut |m, it| {
                let n = match it {
                    syn::Item::Struct(s) => s.ident.to_string(),
                    syn::Item::Enum(s) => s.ident.to_string(),
                    syn::Item::Const(s) => s.ident.to_string(),
                    syn::Item::Type(s) => s.ident.to_string(),
                    _ => return,
                };
                if n == name {
                    res.push((m.to_string(), it.clone()));
                }
            });
        }
        if let Some(w) = want_mod {
            if let Some(x) = res.iter().find(|x| x.0 == w) {
                return Some(x.1.clone());
            }
        }
        if res.len() == 1 || want_mod.is_none() { res.into_iter().next().map(|x| x.1) } else { None }
    }

    pub fn all_fns(&mut self, krate: &str) -> Vec<FnItem> {
        if let Some(v) = self.fns.get(krate) { return v.clone(); }
        self.load(krate);
        let mut res = Vec::new();
        let mut structs: HashMap<String, Vec<(String, syn::Type)>> = HashMap::new();
        for (m, f) in &self.crates[krate] {
            let w = self.world.clone();
            Self::walk(m, &f.items, &mut |m, it| match it {
                syn::Item::Struct(s) if w.has(krate, m) => {
                    structs.insert(s.ident.to_string(), s.fields.iter().filter_map(|f| f.ident.as_ref().map(|i| (i.to_string(), f.ty.clone()))).collect());
                }
                syn::Item::Fn(func) if !is_test(&func.attrs) => res.push(FnItem {
                    krate: krate.to_string(),
                    module: m.to_string(),
                    ty: None,
                    sig: func.sig.clone(),
                    block: (*func.block).clone(),
                    has_self: false,
                }),
                syn::Item::Impl(im) => {
                    let ty = type_name(&im.self_ty);
                    for ii in &im.items {
                        if let syn::ImplItem::Fn(func) = ii {
                            let has_self = func.sig.receiver().is_some();
                            let mut sig = func.sig.clone();
                            // keep the impl's generics visible to the typemap logic
                            for p in &im.generics.params {
                                sig.generics.params.push(p.clone());
                            }
                            res.push(FnItem {
                                krate: krate.to_string(),
                                module: m.to_string(),
                                ty: ty.clone(),
                                sig,
                                block: func.block.clone(),
                                has_self,
                            });
                        }
                    }
                }
                _ => {}
            });
        }
        if self.world.on() { crate::world::erase(&self.world.clone(), &structs, &mut res); }
        self.fns.insert(krate.to_string(), res.clone());
        res
    }

    /// `path` is `Type::name`, `module::name`, or `module::Type::name`.
    pub fn function(&mut self, krate: &str, path: &str) -> Option<FnItem> {
        let parts: Vec<&str> = path.split("::").collect();
        let all = self.all_fns(krate);
        let name = parts[parts.len() - 1];
        let qual = if parts.len() >= 2 { Some(parts[parts.len() - 2]) } else { None };
        let module = if parts.len() >= 3 { Some(parts[0]) } else { None };
        let is_ty = qual.map(|q| q.chars().next().unwrap().is_uppercase()).unwrap_or(false);
        let mut c: Vec<FnItem> = all.into_iter().filter(|f| f.sig.ident == name).collect();
        if is_ty {
            c.retain(|f| f.ty.as_deref() == qual);
            if let Some(m) = module {
                if c.iter().any(|f| f.module == m) {
                    c.retain(|f| f.module == m);
                }
            }
        } else {
            c.retain(|f| f.ty.is_none());
            if let Some(q) = qual {
                if c.iter().any(|f| f.module == q) {
                    c.retain(|f| f.module == q);
                }
            }
        }
        if c.len() == 1 { c.pop() } else { None }
    }
}
