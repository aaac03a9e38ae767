//! Offline stand-in for `elementtree` 1.2: a small DOM on top of quick-xml with the accessor API the checked code uses.
use quick_xml::events::Event;
use std::{fmt, io::Read};
#[derive(Debug)] pub struct Error(String);
impl fmt::Display for Error { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { f.write_str(&self.0) } }
impl std::error::Error for Error {}
#[derive(Debug, Clone, Default)]
pub struct Element { tag: String, attrs: Vec<(String, String)>, children: Vec<Element>, text: String, tail: String }
pub struct Children<'a>(std::slice::Iter<'a, Element>);
impl<'a> Iterator for Children<'a> { type Item = &'a Element; fn next(&mut self) -> Option<&'a Element> { self.0.next() } }
pub struct FindChildren<'a> { tag: String, it: std::slice::Iter<'a, Element> }
impl<'a> Iterator for FindChildren<'a> {
    type Item = &'a Element;
    fn next(&mut self) -> Option<&'a Element> { let t = self.tag.clone(); self.it.by_ref().find(|e| e.tag == t) }
}
impl Element {
    pub fn from_reader<R: Read>(mut r: R) -> Result<Element, Error> {
        let mut s = String::new();
        r.read_to_string(&mut s).map_err(|e| Error(e.to_string()))?;
        let mut rd = quick_xml::Reader::from_str(&s);
        let mut stack: Vec<Element> = vec![];
        let err = |e: &dyn fmt::Display| Error(e.to_string());
        fn add_text(stack: &mut [Element], t: &str) {
            if let Some(top) = stack.last_mut() {
                match top.children.last_mut() { None => top.text.push_str(t), Some(c) => c.tail.push_str(t) }
            }
        }
        fn open(b: &quick_xml::events::BytesStart) -> Result<Element, Error> {
            let mut e = Element { tag: String::from_utf8_lossy(b.name().as_ref()).into_owned(), ..Default::default() };
            for a in b.attributes() {
                let a = a.map_err(|e| Error(e.to_string()))?;
                let raw = String::from_utf8_lossy(&a.value).into_owned();
                let v = quick_xml::escape::unescape(&raw).map_err(|e| Error(e.to_string()))?.into_owned();
                e.attrs.push((String::from_utf8_lossy(a.key.as_ref()).into_owned(), v));
            }
            Ok(e)
        }
        loop {
            match rd.read_event().map_err(|e| err(&e))? {
                Event::Start(b) => stack.push(open(&b)?),
                Event::Empty(b) => { let e = open(&b)?; match stack.last_mut() { Some(t) => t.children.push(e), None => return Ok(e) } }
                Event::End(_) => { let e = stack.pop().ok_or_else(|| Error("unbalanced".into()))?; match stack.last_mut() { Some(t) => t.children.push(e), None => return Ok(e) } }
                Event::Text(t) => { let d = t.decode().map_err(|e| err(&e))?; add_text(&mut stack, &d) }
                Event::CData(t) => { let d = String::from_utf8_lossy(&t).into_owned(); add_text(&mut stack, &d) }
                Event::GeneralRef(r) => {
                    let name = String::from_utf8_lossy(&r).into_owned();
                    let d = quick_xml::escape::unescape(&format!("&{};", name)).map_err(|e| err(&e))?.into_owned();
                    add_text(&mut stack, &d)
                }
                Event::Eof => return Err(Error("no root element".into())),
                _ => {}
            }
        }
    }
    pub fn tag(&self) -> &str { &self.tag }
    pub fn text(&self) -> &str { &self.text }
    pub fn tail(&self) -> &str { &self.tail }
    pub fn get_attr(&self, n: &str) -> Option<&str> { self.attrs.iter().find(|a| a.0 == n).map(|a| a.1.as_str()) }
    pub fn attrs(&self) -> impl Iterator<Item = (&str, &str)> { self.attrs.iter().map(|a| (a.0.as_str(), a.1.as_str())) }
    pub fn children(&self) -> Children<'_> { Children(self.children.iter()) }
    pub fn child_count(&self) -> usize { self.children.len() }
    pub fn find(&self, tag: &str) -> Option<&Element> { self.children.iter().find(|c| c.tag == tag) }
    pub fn find_all(&self, tag: &str) -> FindChildren<'_> { FindChildren { tag: tag.to_string(), it: self.children.iter() } }
}
