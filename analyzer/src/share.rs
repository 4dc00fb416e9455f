//! Containers that are cheap to clone: copy on write.
use std::ops::{Deref, DerefMut};
use std::rc::Rc;

#[derive(Debug, Default)]
pub struct Sh<T: Clone>(Rc<T>);
impl<T: Clone> Clone for Sh<T> {
    fn clone(&self) -> Self {
        Sh(self.0.clone())
    }
}
impl<T: Clone> Sh<T> {
    pub fn new(t: T) -> Self {
        Sh(Rc::new(t))
    }
}
impl<T: Clone> Deref for Sh<T> {
    type Target = T;
    fn deref(&self) -> &T {
        &self.0
    }
}
impl<T: Clone> DerefMut for Sh<T> {
    fn deref_mut(&mut self) -> &mut T {
        Rc::make_mut(&mut self.0)
    }
}
impl<'a, T: Clone> IntoIterator for &'a Sh<T>
where
    &'a T: IntoIterator,
{
    type Item = <&'a T as IntoIterator>::Item;
    type IntoIter = <&'a T as IntoIterator>::IntoIter;
    fn into_iter(self) -> Self::IntoIter {
        (&*self.0).into_iter()
    }
}

const B: u32 = 8;
/// a map from (dense, increasing) ids, shared in blocks
#[derive(Debug)]
pub struct IdMap<V: Clone>(Vec<(u32, Rc<[Option<V>; B as usize]>)>);
impl<V: Clone> Clone for IdMap<V> {
    fn clone(&self) -> Self {
        IdMap(self.0.clone())
    }
}
impl<V: Clone> Default for IdMap<V> {
    fn default() -> Self {
        IdMap(vec![])
    }
}
impl<V: Clone> IdMap<V> {
    pub fn new() -> Self {
        IdMap(vec![])
    }
    fn pos(&self, k: u32) -> Result<usize, usize> {
        self.0.binary_search_by_key(&(k / B), |x| x.0)
    }
    pub fn get(&self, k: &u32) -> Option<&V> {
        let p = self.pos(*k).ok()?;
        self.0[p].1[(*k % B) as usize].as_ref()
    }
    pub fn get_mut(&mut self, k: &u32) -> Option<&mut V> {
        let p = self.pos(*k).ok()?;
        if self.0[p].1[(*k % B) as usize].is_none() {
            return None;
        }
        Rc::make_mut(&mut self.0[p].1)[(*k % B) as usize].as_mut()
    }
    pub fn contains_key(&self, k: &u32) -> bool {
        self.get(k).is_some()
    }
    pub fn insert(&mut self, k: u32, v: V) -> Option<V> {
        let p = match self.pos(k) {
            Ok(p) => p,
            Err(p) => {
                self.0.insert(p, (k / B, Rc::new([const { None }; B as usize])));
                p
            }
        };
        Rc::make_mut(&mut self.0[p].1)[(k % B) as usize].replace(v)
    }
    pub fn remove(&mut self, k: &u32) -> Option<V> {
        let p = self.pos(*k).ok()?;
        if self.0[p].1[(*k % B) as usize].is_none() {
            return None;
        }
        let c = Rc::make_mut(&mut self.0[p].1);
        let r = c[(*k % B) as usize].take();
        if c.iter().all(|x| x.is_none()) {
            self.0.remove(p);
        }
        r
    }
    pub fn iter(&self) -> Box<dyn Iterator<Item = (u32, &V)> + '_> {
        Box::new(self.0.iter().flat_map(|(b, c)| c.iter().enumerate().filter_map(move |(i, v)| v.as_ref().map(|v| (*b * B + i as u32, v)))))
    }
    pub fn values_mut(&mut self) -> Box<dyn Iterator<Item = &mut V> + '_> {
        Box::new(self.0.iter_mut().flat_map(|(_, c)| Rc::make_mut(c).iter_mut().filter_map(|v| v.as_mut())))
    }
    pub fn values(&self) -> Box<dyn Iterator<Item = &V> + '_> {
        Box::new(self.iter().map(|x| x.1))
    }
    pub fn keys(&self) -> Box<dyn Iterator<Item = u32> + '_> {
        Box::new(self.iter().map(|x| x.0))
    }
    pub fn retain(&mut self, mut f: impl FnMut(&u32, &V) -> bool) {
        let drop: Vec<u32> = self.iter().filter(|(k, v)| !f(k, v)).map(|x| x.0).collect();
        for k in drop {
            self.remove(&k);
        }
    }
}
impl<'a, V: Clone> IntoIterator for &'a IdMap<V> {
    type Item = (u32, &'a V);
    type IntoIter = Box<dyn Iterator<Item = (u32, &'a V)> + 'a>;
    fn into_iter(self) -> Self::IntoIter {
        self.iter()
    }
}
impl<V: Clone> std::ops::Index<&u32> for IdMap<V> {
    type Output = V;
    fn index(&self, k: &u32) -> &V {
        self.get(k).expect("object")
    }
}
