//! The reference semantics: what an abstract OBJ or MTL file means, computed
//! from the abstract statements, and its comparison with what the library
//! returned. Nothing here looks at text.

use wavefront_obj::{mtl, obj};

#[derive(Clone, Debug)]
pub struct Num {
    pub txt: String,
    pub val: f64,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Form {
    V,
    VT,
    VN,
    VTN,
}

pub const FORMS: [Form; 4] = [Form::V, Form::VT, Form::VN, Form::VTN];

impl Form {
    pub fn has_t(self) -> bool {
        matches!(self, Form::VT | Form::VTN)
    }
    pub fn has_n(self) -> bool {
        matches!(self, Form::VN | Form::VTN)
    }
}

/// A vertex reference: positions in the current object's lists, and how each
/// component is written.
#[derive(Clone, Copy, Debug)]
pub struct Ref {
    pub idx: [usize; 3],
    pub rel: [bool; 3],
    pub zeros: u8,
}

#[derive(Clone, Debug)]
pub enum Stmt {
    V(Vec<Num>),
    Vt(Vec<Num>),
    Vn(Vec<Num>),
    P(Vec<Ref>),
    L(Form, Vec<Ref>),
    F(Form, Vec<Ref>),
    G(Vec<String>),
    /// The value and how it is written.
    S(usize, String),
    U(String),
    O(String),
}

#[derive(Clone, Debug, Default)]
pub struct ObjFile {
    pub libs: Vec<Vec<String>>,
    pub stmts: Vec<Stmt>,
}

#[derive(Clone, Debug, PartialEq)]
pub struct MElem {
    /// 'p', 'l' or 'f'
    pub kind: char,
    pub form: Form,
    pub refs: Vec<[usize; 3]>,
}

#[derive(Clone, Debug, Default)]
pub struct MObject {
    pub name: String,
    pub v: Vec<[f64; 4]>,
    pub vt: Vec<[f64; 3]>,
    pub vn: Vec<[f64; 3]>,
    pub groups: Vec<String>,
    pub elems: Vec<MElem>,
    pub elem_groups: Vec<Vec<String>>,
    pub elem_smooth: Vec<usize>,
    pub elem_mat: Vec<Option<String>>,
    /// Elements before each `usemtl` segment: (material, first element, count).
    pub geos: Vec<(Option<String>, usize, usize)>,
    named: bool,
    cur_groups: Vec<String>,
    cur_smooth: usize,
    cur_mat: Option<String>,
    new_segment: bool,
}

#[derive(Clone, Debug, Default)]
pub struct MSet {
    pub libs: Vec<String>,
    pub objects: Vec<MObject>,
}

impl MObject {
    fn new(name: &str) -> MObject {
        MObject { name: name.to_owned(), new_segment: true, ..MObject::default() }
    }

    fn element(&mut self, kind: char, form: Form, refs: Vec<[usize; 3]>) {
        if !self.named {
            self.groups.push("default".to_owned());
            self.cur_groups = vec!["default".to_owned()];
            self.named = true;
        }
        let refs = refs
            .into_iter()
            .map(|r| [r[0], if form.has_t() { r[1] } else { 0 }, if form.has_n() { r[2] } else { 0 }])
            .collect();
        let i = self.elems.len();
        self.elems.push(MElem { kind, form, refs });
        self.elem_groups.push(self.cur_groups.clone());
        self.elem_smooth.push(self.cur_smooth);
        self.elem_mat.push(self.cur_mat.clone());
        if self.new_segment {
            self.geos.push((self.cur_mat.clone(), i, 0));
            self.new_segment = false;
        }
        self.geos.last_mut().unwrap().2 += 1;
    }
}

impl MSet {
    fn cur(&mut self) -> &mut MObject {
        if self.objects.is_empty() {
            self.objects.push(MObject::new(""));
        }
        self.objects.last_mut().unwrap()
    }
    pub fn counts(&self) -> [usize; 3] {
        match self.objects.last() {
            Some(o) => [o.v.len(), o.vt.len(), o.vn.len()],
            None => [0; 3],
        }
    }
    pub fn v(&mut self, c: &[f64]) {
        let w = if c.len() > 3 { c[3] } else { 1.0 };
        self.cur().v.push([c[0], c[1], c[2], w]);
    }
    pub fn vt(&mut self, c: &[f64]) {
        let g = |i: usize| if c.len() > i { c[i] } else { 0.0 };
        self.cur().vt.push([c[0], g(1), g(2)]);
    }
    pub fn vn(&mut self, c: &[f64]) {
        self.cur().vn.push([c[0], c[1], c[2]]);
    }
    pub fn points(&mut self, refs: &[[usize; 3]]) {
        for r in refs {
            self.cur().element('p', Form::V, vec![*r]);
        }
    }
    pub fn line(&mut self, form: Form, refs: &[[usize; 3]]) {
        for w in refs.windows(2) {
            self.cur().element('l', form, w.to_vec());
        }
    }
    pub fn face(&mut self, form: Form, refs: &[[usize; 3]]) {
        for i in 2..refs.len() {
            self.cur().element('f', form, vec![refs[0], refs[i - 1], refs[i]]);
        }
    }
    pub fn g(&mut self, names: &[String]) {
        let o = self.cur();
        if !names.is_empty() {
            o.named = true;
        }
        o.groups.extend(names.iter().cloned());
        o.cur_groups = names.to_vec();
    }
    pub fn s(&mut self, value: usize) {
        self.cur().cur_smooth = value;
    }
    pub fn usemtl(&mut self, name: &str) {
        let o = self.cur();
        o.cur_mat = Some(name.to_owned());
        o.new_segment = true;
    }
    pub fn o(&mut self, name: &str) {
        self.objects.push(MObject::new(name));
    }
    pub fn stmt(&mut self, st: &Stmt) {
        let vals = |n: &[Num]| n.iter().map(|x| x.val).collect::<Vec<_>>();
        let idx = |r: &[Ref]| r.iter().map(|x| x.idx).collect::<Vec<_>>();
        match st {
            Stmt::V(n) => self.v(&vals(n)),
            Stmt::Vt(n) => self.vt(&vals(n)),
            Stmt::Vn(n) => self.vn(&vals(n)),
            Stmt::P(r) => self.points(&idx(r)),
            Stmt::L(f, r) => self.line(*f, &idx(r)),
            Stmt::F(f, r) => self.face(*f, &idx(r)),
            Stmt::G(n) => self.g(n),
            Stmt::S(v, _) => self.s(*v),
            Stmt::U(n) => self.usemtl(n),
            Stmt::O(n) => self.o(n),
        }
    }
}

impl ObjFile {
    pub fn model(&self) -> MSet {
        let mut set = MSet { libs: self.libs.concat(), objects: vec![] };
        for st in &self.stmts {
            set.stmt(st);
        }
        set
    }

    /// The statement lines as words. `offset`: entries that precede the file.
    pub fn lines(&self, offset: [usize; 3]) -> Vec<Vec<String>> {
        let mut out = Vec::with_capacity(self.libs.len() + self.stmts.len());
        for l in &self.libs {
            let mut w = vec!["mtllib".to_owned()];
            w.extend(l.iter().cloned());
            out.push(w);
        }
        let mut base = offset;
        let mut cnt = [0usize; 3];
        for st in &self.stmts {
            out.push(stmt_words(st, base, cnt));
            step(st, &mut base, &mut cnt);
        }
        out
    }

    /// (entries before the object, entries so far in the object), before each
    /// statement and at the end.
    pub fn states(&self) -> Vec<([usize; 3], [usize; 3])> {
        let mut out = vec![];
        let (mut base, mut cnt) = ([0; 3], [0; 3]);
        for st in &self.stmts {
            out.push((base, cnt));
            step(st, &mut base, &mut cnt);
        }
        out.push((base, cnt));
        out
    }
}

pub fn step(st: &Stmt, base: &mut [usize; 3], cnt: &mut [usize; 3]) {
    match st {
        Stmt::V(_) => cnt[0] += 1,
        Stmt::Vt(_) => cnt[1] += 1,
        Stmt::Vn(_) => cnt[2] += 1,
        Stmt::O(_) => {
            for k in 0..3 {
                base[k] += cnt[k];
                cnt[k] = 0;
            }
        }
        _ => {}
    }
}

pub fn ref_word(form: Form, r: &Ref, base: [usize; 3], cnt: [usize; 3]) -> String {
    let part = |k: usize| -> String {
        // Four means an explicit plus sign.
        let z = if r.zeros == 4 { String::new() } else { "0".repeat(r.zeros as usize) };
        if r.rel[k] {
            format!("-{}{}", z, cnt[k] - r.idx[k])
        } else {
            let plus = if r.zeros == 4 { "+" } else { "" };
            format!("{}{}{}", plus, z, base[k] + r.idx[k] + 1)
        }
    };
    match form {
        Form::V => part(0),
        Form::VT => format!("{}/{}", part(0), part(1)),
        Form::VN => format!("{}//{}", part(0), part(2)),
        Form::VTN => format!("{}/{}/{}", part(0), part(1), part(2)),
    }
}

pub fn stmt_words(st: &Stmt, base: [usize; 3], cnt: [usize; 3]) -> Vec<String> {
    fn nums(tag: &str, n: &[Num]) -> Vec<String> {
        let mut w = vec![tag.to_owned()];
        w.extend(n.iter().map(|x| x.txt.clone()));
        w
    }
    let refs = |tag: &str, f: Form, r: &[Ref]| {
        let mut w = vec![tag.to_owned()];
        w.extend(r.iter().map(|x| ref_word(f, x, base, cnt)));
        w
    };
    match st {
        Stmt::V(n) => nums("v", n),
        Stmt::Vt(n) => nums("vt", n),
        Stmt::Vn(n) => nums("vn", n),
        Stmt::P(r) => refs("p", Form::V, r),
        Stmt::L(f, r) => refs("l", *f, r),
        Stmt::F(f, r) => refs("f", *f, r),
        Stmt::G(n) => {
            let mut w = vec!["g".to_owned()];
            w.extend(n.iter().cloned());
            w
        }
        Stmt::S(_, t) => vec!["s".to_owned(), t.clone()],
        Stmt::U(n) => vec!["usemtl".to_owned(), n.clone()],
        Stmt::O(n) => vec!["o".to_owned(), n.clone()],
    }
}

// ---------------------------------------------------------------- comparison

pub type R = Result<(), String>;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Aspect {
    Data,
    Elements,
    Groups,
    Smoothing,
    Geometry,
    Objects,
}

pub const ALL_ASPECTS: [Aspect; 6] =
    [Aspect::Objects, Aspect::Data, Aspect::Elements, Aspect::Groups, Aspect::Smoothing, Aspect::Geometry];

macro_rules! ensure {
    ($cond:expr, $($fmt:tt)*) => {
        if !$cond {
            return Err(format!($($fmt)*));
        }
    };
}
pub(crate) use ensure;

fn short<T: std::fmt::Debug>(t: &T) -> String {
    let s = format!("{:?}", t);
    if s.chars().count() > 300 {
        let head: String = s.chars().take(300).collect();
        format!("{}...", head)
    } else {
        s
    }
}

pub fn vtn_parts(i: &obj::VTNIndex) -> (Form, [usize; 3]) {
    match *i {
        obj::VTNIndex::V(v) => (Form::V, [v, 0, 0]),
        obj::VTNIndex::VT(v, t) => (Form::VT, [v, t, 0]),
        obj::VTNIndex::VN(v, n) => (Form::VN, [v, 0, n]),
        obj::VTNIndex::VTN(v, t, n) => (Form::VTN, [v, t, n]),
    }
}

pub fn elem_vtns(e: &obj::Element) -> (char, Vec<obj::VTNIndex>) {
    match *e {
        obj::Element::Point(a) => ('p', vec![a]),
        obj::Element::Line(a, b) => ('l', vec![a, b]),
        obj::Element::Face(a, b, c) => ('f', vec![a, b, c]),
    }
}

fn same_bits(a: &[f64], b: &[f64]) -> bool {
    a.len() == b.len() && a.iter().zip(b).all(|(x, y)| x.to_bits() == y.to_bits())
}

pub fn compare_set(want: &MSet, got: &obj::ObjectSet, aspects: &[Aspect]) -> R {
    if aspects.contains(&Aspect::Objects) {
        ensure!(
            want.libs == got.material_libraries,
            "material libraries: expected {}, got {}",
            short(&want.libs),
            short(&got.material_libraries)
        );
    }
    ensure!(
        want.objects.len() == got.objects.len(),
        "number of objects: expected {}, got {} ({})",
        want.objects.len(),
        got.objects.len(),
        short(&got.objects.iter().map(|o| &o.name).collect::<Vec<_>>())
    );
    for (i, (w, g)) in want.objects.iter().zip(&got.objects).enumerate() {
        compare_object(w, g, aspects).map_err(|e| format!("object #{} ({:?}): {}", i, short(&w.name), e))?;
    }
    Ok(())
}

pub fn compare_object(w: &MObject, g: &obj::Object, aspects: &[Aspect]) -> R {
    for a in aspects {
        match a {
            Aspect::Objects => {
                ensure!(w.name == g.name, "name: expected {}, got {}", short(&w.name), short(&g.name));
                ensure!(
                    (w.v.len(), w.vt.len(), w.vn.len(), w.elems.len())
                        == (
                            g.vertex_set.len(),
                            g.texture_vertex_set.len(),
                            g.normal_vertex_set.len(),
                            g.element_set.len()
                        ),
                    "contents (v, vt, vn, elements): expected {:?}, got {:?}",
                    (w.v.len(), w.vt.len(), w.vn.len(), w.elems.len()),
                    (
                        g.vertex_set.len(),
                        g.texture_vertex_set.len(),
                        g.normal_vertex_set.len(),
                        g.element_set.len()
                    )
                );
            }
            Aspect::Data => compare_data(w, g)?,
            Aspect::Elements => compare_elements(w, g)?,
            Aspect::Groups => compare_groups(w, g)?,
            Aspect::Smoothing => compare_smoothing(w, g)?,
            Aspect::Geometry => compare_geometry(w, g)?,
        }
    }
    Ok(())
}

fn compare_data(w: &MObject, g: &obj::Object) -> R {
    ensure!(w.v.len() == g.vertex_set.len(), "positions: expected {}, got {}", w.v.len(), g.vertex_set.len());
    ensure!(
        w.vt.len() == g.texture_vertex_set.len(),
        "texture vertices: expected {}, got {}",
        w.vt.len(),
        g.texture_vertex_set.len()
    );
    ensure!(
        w.vn.len() == g.normal_vertex_set.len(),
        "normals: expected {}, got {}",
        w.vn.len(),
        g.normal_vertex_set.len()
    );
    for (i, (a, b)) in w.v.iter().zip(&g.vertex_set).enumerate() {
        ensure!(same_bits(a, &[b.x, b.y, b.z, b.w]), "position #{}: expected {:?}, got {:?}", i, a, b);
    }
    for (i, (a, b)) in w.vt.iter().zip(&g.texture_vertex_set).enumerate() {
        ensure!(same_bits(a, &[b.u, b.v, b.w]), "texture vertex #{}: expected {:?}, got {:?}", i, a, b);
    }
    for (i, (a, b)) in w.vn.iter().zip(&g.normal_vertex_set).enumerate() {
        ensure!(same_bits(a, &[b.x, b.y, b.z]), "normal #{}: expected {:?}, got {:?}", i, a, b);
    }
    Ok(())
}

fn compare_elements(w: &MObject, g: &obj::Object) -> R {
    for (i, (a, b)) in w.elems.iter().zip(&g.element_set).enumerate() {
        let (kind, vtns) = elem_vtns(b);
        ensure!(a.kind == kind, "element #{}: expected {:?}, got {:?}", i, a, b);
        for (k, vtn) in vtns.iter().enumerate() {
            let (form, idx) = vtn_parts(vtn);
            ensure!(form == a.form && idx == a.refs[k], "element #{} vertex {}: expected {:?}, got {:?}", i, k, a, b);
        }
    }
    ensure!(
        w.elems.len() == g.element_set.len(),
        "number of elements: expected {}, got {}",
        w.elems.len(),
        g.element_set.len()
    );
    Ok(())
}

fn compare_groups(w: &MObject, g: &obj::Object) -> R {
    ensure!(
        w.groups.len() == g.group_set.len() && w.groups.iter().zip(&g.group_set).all(|(a, b)| *a == b.0),
        "group list: expected {}, got {}",
        short(&w.groups),
        short(&g.group_set)
    );
    ensure!(
        w.elems.len() == g.shape_set.len(),
        "number of shape entries: expected {}, got {}",
        w.elems.len(),
        g.shape_set.len()
    );
    for (i, (a, b)) in w.elem_groups.iter().zip(&g.shape_set).enumerate() {
        ensure!(b.element == i, "shape entry #{} describes element {}", i, b.element);
        let ok = a.len() == b.groups.len()
            && b.groups.iter().zip(a).all(|(&k, name)| g.group_set.get(k).map(|x| x.0 == *name).unwrap_or(false));
        ensure!(
            ok,
            "groups of element #{}: expected {}, got indices {} into {}",
            i,
            short(a),
            short(&b.groups),
            short(&g.group_set)
        );
    }
    Ok(())
}

fn compare_smoothing(w: &MObject, g: &obj::Object) -> R {
    ensure!(
        w.elems.len() == g.shape_set.len(),
        "number of shape entries: expected {}, got {}",
        w.elems.len(),
        g.shape_set.len()
    );
    for (i, (a, b)) in w.elem_smooth.iter().zip(&g.shape_set).enumerate() {
        ensure!(b.element == i, "shape entry #{} describes element {}", i, b.element);
        ensure!(
            g.smoothing_group_set.get(b.smoothing_group).map(|x| x.0) == Some(*a),
            "smoothing group of element #{}: expected {}, got index {} into {}",
            i,
            a,
            b.smoothing_group,
            short(&g.smoothing_group_set)
        );
    }
    Ok(())
}

fn compare_geometry(w: &MObject, g: &obj::Object) -> R {
    // A `usemtl` that no element follows may leave an empty last geometry.
    let n = g.geometry_set.len();
    for (i, geo) in g.geometry_set.iter().enumerate() {
        ensure!(i + 1 == n || !geo.shapes.is_empty(), "geometry #{} of {} is empty: {:?}", i, n, geo.material_name);
    }
    let got: Vec<_> = g.geometry_set.iter().filter(|x| !x.shapes.is_empty()).collect();
    for (i, ((mat, first, count), b)) in w.geos.iter().zip(&got).enumerate() {
        ensure!(
            *mat == b.material_name,
            "material of geometry #{}: expected {}, got {}",
            i,
            short(mat),
            short(&b.material_name)
        );
        ensure!(
            b.shapes.len() == *count && b.shapes.iter().enumerate().all(|(k, &s)| s == first + k),
            "shapes of geometry #{} ({}): expected {}..{}, got {}",
            i,
            short(mat),
            first,
            first + count,
            short(&b.shapes)
        );
    }
    ensure!(
        w.geos.len() == got.len(),
        "number of non-empty geometries: expected {}, got {}",
        w.geos.len(),
        got.len()
    );
    Ok(())
}

/// An element as plain data.
pub fn elem_key(e: &obj::Element) -> (char, Vec<(u8, [usize; 3])>) {
    let (kind, vtns) = elem_vtns(e);
    (kind, vtns.iter().map(vtn_key).collect())
}

pub fn vtn_key(v: &obj::VTNIndex) -> (u8, [usize; 3]) {
    match *v {
        obj::VTNIndex::V(a) => (0, [a, 0, 0]),
        obj::VTNIndex::VT(a, b) => (1, [a, b, 0]),
        obj::VTNIndex::VN(a, c) => (2, [a, 0, c]),
        obj::VTNIndex::VTN(a, b, c) => (3, [a, b, c]),
    }
}

/// Full equality of two results, numbers bit for bit.
pub fn same_set(a: &obj::ObjectSet, b: &obj::ObjectSet) -> R {
    ensure!(
        a.material_libraries == b.material_libraries,
        "material libraries differ: {} / {}",
        short(&a.material_libraries),
        short(&b.material_libraries)
    );
    ensure!(a.objects.len() == b.objects.len(), "object counts differ: {} / {}", a.objects.len(), b.objects.len());
    for (i, (x, y)) in a.objects.iter().zip(&b.objects).enumerate() {
        same_object(x, y).map_err(|e| format!("object #{}: {}", i, e))?;
    }
    Ok(())
}

pub fn same_object(x: &obj::Object, y: &obj::Object) -> R {
    ensure!(x.name == y.name, "names differ: {} / {}", short(&x.name), short(&y.name));
    macro_rules! same_list {
        ($field:ident, $eq:expr) => {{
            ensure!(
                x.$field.len() == y.$field.len(),
                "{} lengths differ: {} / {}",
                stringify!($field),
                x.$field.len(),
                y.$field.len()
            );
            for (i, (p, q)) in x.$field.iter().zip(&y.$field).enumerate() {
                ensure!($eq(p, q), "{} #{} differ: {} / {}", stringify!($field), i, short(p), short(q));
            }
        }};
    }
    same_list!(vertex_set, |p: &obj::Vertex, q: &obj::Vertex| same_bits(&[p.x, p.y, p.z, p.w], &[q.x, q.y, q.z, q.w]));
    same_list!(texture_vertex_set, |p: &obj::TextureVertex, q: &obj::TextureVertex| same_bits(
        &[p.u, p.v, p.w],
        &[q.u, q.v, q.w]
    ));
    same_list!(normal_vertex_set, |p: &obj::NormalVertex, q: &obj::NormalVertex| same_bits(
        &[p.x, p.y, p.z],
        &[q.x, q.y, q.z]
    ));
    // Field by field: the library's own == is under test elsewhere.
    same_list!(group_set, |p: &obj::Group, q: &obj::Group| p.0 == q.0);
    same_list!(smoothing_group_set, |p: &obj::SmoothingGroup, q: &obj::SmoothingGroup| p.0 == q.0);
    same_list!(element_set, |p: &obj::Element, q: &obj::Element| elem_key(p) == elem_key(q));
    same_list!(shape_set, |p: &obj::ShapeEntry, q: &obj::ShapeEntry| p.element == q.element
        && p.groups == q.groups
        && p.smoothing_group == q.smoothing_group);
    same_list!(geometry_set, |p: &obj::Geometry, q: &obj::Geometry| p.material_name == q.material_name
        && p.shapes == q.shapes);
    Ok(())
}

// ----------------------------------------------------------------------- MTL

pub const COLORS: [&str; 4] = ["Ka", "Kd", "Ks", "Ke"];
pub const SCALARS: [&str; 3] = ["Ns", "d", "Ni"];
/// `map_Bump` and `bump` set the same attribute.
pub const MAPS: [&str; 10] =
    ["map_Ka", "map_Kd", "map_Ks", "map_Ke", "map_Ns", "map_Bump", "disp", "map_d", "decal", "bump"];

#[derive(Clone, Debug)]
pub enum MStmt {
    Color(usize, [Num; 3]),
    Scalar(usize, Num),
    Illum(usize, String),
    Map(usize, String),
    /// Documented, but not implemented (known finding).
    Tf([Num; 3]),
}

#[derive(Clone, Debug, Default)]
pub struct Mat {
    pub name: String,
    pub stmts: Vec<MStmt>,
}

#[derive(Clone, Debug, Default)]
pub struct MtlFile {
    pub mats: Vec<Mat>,
}

#[derive(Clone, Debug)]
pub struct MMat {
    pub name: String,
    pub colors: [[f64; 3]; 4],
    pub ns: f64,
    pub d: f64,
    pub ni: Option<f64>,
    pub illum: usize,
    pub maps: [Option<String>; 9],
}

impl MMat {
    pub fn new(name: &str) -> MMat {
        MMat {
            name: name.to_owned(),
            colors: [[0.0; 3]; 4],
            ns: 0.0,
            d: 1.0,
            ni: None,
            illum: 2,
            maps: Default::default(),
        }
    }
    pub fn color(&mut self, which: usize, c: [f64; 3]) {
        self.colors[which] = c;
    }
    pub fn scalar(&mut self, which: usize, v: f64) {
        match which {
            0 => self.ns = v,
            1 => self.d = v,
            _ => self.ni = Some(v),
        }
    }
    pub fn map(&mut self, which: usize, name: &str) {
        self.maps[if which == 9 { 5 } else { which }] = Some(name.to_owned());
    }
}

impl MtlFile {
    pub fn model(&self) -> Vec<MMat> {
        self.mats
            .iter()
            .map(|m| {
                let mut out = MMat::new(&m.name);
                for st in &m.stmts {
                    match st {
                        MStmt::Color(w, c) => out.color(*w, [c[0].val, c[1].val, c[2].val]),
                        MStmt::Scalar(w, v) => out.scalar(*w, v.val),
                        MStmt::Illum(n, _) => out.illum = *n,
                        MStmt::Map(w, n) => out.map(*w, n),
                        MStmt::Tf(_) => {}
                    }
                }
                out
            })
            .collect()
    }

    pub fn lines(&self) -> Vec<Vec<String>> {
        let mut out = vec![];
        for m in &self.mats {
            out.push(vec!["newmtl".to_owned(), m.name.clone()]);
            for st in &m.stmts {
                out.push(mstmt_words(st));
            }
        }
        out
    }
}

pub fn mstmt_words(st: &MStmt) -> Vec<String> {
    match st {
        MStmt::Color(w, c) => {
            vec![COLORS[*w].to_owned(), c[0].txt.clone(), c[1].txt.clone(), c[2].txt.clone()]
        }
        MStmt::Scalar(w, v) => vec![SCALARS[*w].to_owned(), v.txt.clone()],
        MStmt::Illum(_, t) => vec!["illum".to_owned(), t.clone()],
        MStmt::Map(w, n) => vec![MAPS[*w].to_owned(), n.clone()],
        MStmt::Tf(c) => vec!["Tf".to_owned(), c[0].txt.clone(), c[1].txt.clone(), c[2].txt.clone()],
    }
}

pub fn compare_mtl(want: &[MMat], got: &mtl::MaterialSet) -> R {
    for (i, (w, g)) in want.iter().zip(&got.materials).enumerate() {
        compare_material(w, g).map_err(|e| format!("material #{} ({}): {}", i, short(&w.name), e))?;
    }
    ensure!(
        want.len() == got.materials.len(),
        "number of materials: expected {}, got {}",
        want.len(),
        got.materials.len()
    );
    Ok(())
}

pub fn illum_number(m: mtl::IlluminationModel) -> usize {
    match m {
        mtl::IlluminationModel::Ambient => 0,
        mtl::IlluminationModel::AmbientDiffuse => 1,
        mtl::IlluminationModel::AmbientDiffuseSpecular => 2,
    }
}

fn compare_material(w: &MMat, g: &mtl::Material) -> R {
    ensure!(w.name == g.name, "name: expected {}, got {}", short(&w.name), short(&g.name));
    let cols = [&g.color_ambient, &g.color_diffuse, &g.color_specular, &g.color_emissive];
    for k in 0..4 {
        ensure!(
            same_bits(&w.colors[k], &[cols[k].r, cols[k].g, cols[k].b]),
            "{}: expected {:?}, got {:?}",
            COLORS[k],
            w.colors[k],
            cols[k]
        );
    }
    ensure!(w.ns.to_bits() == g.specular_exponent.to_bits(), "Ns: expected {:?}, got {:?}", w.ns, g.specular_exponent);
    ensure!(w.d.to_bits() == g.dissolve.to_bits(), "d: expected {:?}, got {:?}", w.d, g.dissolve);
    ensure!(
        w.ni.map(f64::to_bits) == g.optical_density.map(f64::to_bits),
        "Ni: expected {:?}, got {:?}",
        w.ni,
        g.optical_density
    );
    ensure!(
        w.illum == illum_number(g.illumination_model),
        "illum: expected {:?}, got {:?}",
        w.illum,
        g.illumination_model
    );
    let maps = maps_of(g);
    for k in 0..9 {
        ensure!(w.maps[k] == *maps[k], "{}: expected {}, got {}", MAPS[k], short(&w.maps[k]), short(maps[k]));
    }
    Ok(())
}

pub fn maps_of(g: &mtl::Material) -> [&Option<String>; 9] {
    [
        &g.map_ambient,
        &g.map_diffuse,
        &g.map_specular,
        &g.map_emissive,
        &g.map_specular_exponent,
        &g.map_bump,
        &g.map_displacement,
        &g.map_dissolve,
        &g.map_decal,
    ]
}

/// Full equality of two material sets, numbers bit for bit.
pub fn same_mtl(a: &mtl::MaterialSet, b: &mtl::MaterialSet) -> R {
    ensure!(a.materials.len() == b.materials.len(), "{} / {} materials", a.materials.len(), b.materials.len());
    for (i, (x, y)) in a.materials.iter().zip(&b.materials).enumerate() {
        same_material(x, y).map_err(|e| format!("material #{}: {}", i, e))?;
    }
    Ok(())
}

pub fn same_material(x: &mtl::Material, y: &mtl::Material) -> R {
    let key = |g: &mtl::Material| {
        let mut nums = vec![];
        for c in [&g.color_ambient, &g.color_diffuse, &g.color_specular, &g.color_emissive] {
            nums.extend([c.r.to_bits(), c.g.to_bits(), c.b.to_bits()]);
        }
        nums.extend([g.specular_exponent.to_bits(), g.dissolve.to_bits()]);
        (
            g.name.clone(),
            nums,
            g.optical_density.map(f64::to_bits),
            illum_number(g.illumination_model),
            maps_of(g).iter().map(|m| (*m).clone()).collect::<Vec<_>>(),
        )
    };
    ensure!(key(x) == key(y), "differ: {} / {}", short(x), short(y));
    Ok(())
}
