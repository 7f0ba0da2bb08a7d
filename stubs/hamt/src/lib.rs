//! Stand-in for the persistent maps of raviqqe/hamt-rs (not available offline): same interface, plain copies.
use std::{borrow::Borrow, collections::HashMap, hash::Hash, rc::Rc};

macro_rules! map {
    ($name:ident) => {
        #[derive(Debug)]
        pub struct $name<K, V>(Rc<HashMap<K, V>>);

        impl<K, V> Clone for $name<K, V> {
            fn clone(&self) -> Self {
                Self(self.0.clone())
            }
        }

        impl<K, V> Default for $name<K, V> {
            fn default() -> Self {
                Self(Rc::new(HashMap::new()))
            }
        }

        impl<K: Clone + Eq + Hash, V: Clone> $name<K, V> {
            pub fn get<Q: Hash + Eq + ?Sized>(&self, key: &Q) -> Option<&V>
            where
                K: Borrow<Q>,
            {
                self.0.get(key)
            }

            pub fn contains_key<Q: Hash + Eq + ?Sized>(&self, key: &Q) -> bool
            where
                K: Borrow<Q>,
            {
                self.0.contains_key(key)
            }

            pub fn insert(&self, key: K, value: V) -> Self {
                self.insert_iter([(key, value)])
            }

            pub fn insert_iter(&self, iterator: impl IntoIterator<Item = (K, V)>) -> Self {
                let mut map = (*self.0).clone();
                map.extend(iterator);
                Self(Rc::new(map))
            }

            pub fn remove<Q: Hash + Eq + ?Sized>(&self, key: &Q) -> Self
            where
                K: Borrow<Q>,
            {
                let mut map = (*self.0).clone();
                map.remove(key);
                Self(Rc::new(map))
            }
        }

        impl<K: Eq + Hash, V> FromIterator<(K, V)> for $name<K, V> {
            fn from_iter<I: IntoIterator<Item = (K, V)>>(iterator: I) -> Self {
                Self(Rc::new(iterator.into_iter().collect()))
            }
        }
    };
}

map!(Map);


impl<K: Clone + Eq + Hash, V: Clone> Map<K, V> {
    pub fn new() -> Self {
        Self::default()
    }
}
