// ------------------------------------------------------------------ saved simple keys
//@include macros
//@item scanner::key::KeyPossible
//@attr
#[derive(Clone, Copy, PartialEq, Eq, Structural)]
//@end
//@item scanner::key::KeySave
//@end
//@item scanner::key::Key
//@end
impl KeyPossible {
//@fn scanner::key::KeyPossible::allowed
    ensures ret == (*self != KeyPossible::No)
//@end
//@fn scanner::key::KeyPossible::required
    ensures ret == (*self == KeyPossible::Required)
//@end
}
impl KeySave {
//@fn scanner::key::KeySave::new
    ensures ret == (KeySave { possible: if required { KeyPossible::Required } else { KeyPossible::Yes }, stats })
//@end
//@fn scanner::key::KeySave::key
    ensures *ret == self.possible
//@end
//@fn scanner::key::KeySave::key_mut
    ensures *ret == old(self).possible, final(self).possible == *final(ret), final(self).stats == old(self).stats
//@end
//@fn scanner::key::KeySave::stats
    ensures *ret == self.stats
//@end
}
impl Key {
//@fn scanner::key::Key::new
    ensures ret.save is None
//@end
//@fn scanner::key::Key::Default::default as vx_default
//@opt call=Self::new->Key::new
    ensures ret.save is None
//@end
//@fn scanner::key::Key::save as vx_save
    ensures final(self).save == Some(KeySave { possible: if required { KeyPossible::Required } else { KeyPossible::Yes }, stats })
//@end
//@fn scanner::key::Key::saved
    ensures *ret == old(self).save, *final(ret) == final(self).save
//@end
//@fn scanner::key::Key::possible
    ensures ret == (self.save is Some && (self.save->0).possible != KeyPossible::No)
//@end
}
