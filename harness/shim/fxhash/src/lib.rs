//! Stand-in: only the map alias is used.
pub type FxHashMap<K, V> = std::collections::HashMap<K, V>;
pub type FxHashSet<K> = std::collections::HashSet<K>;
