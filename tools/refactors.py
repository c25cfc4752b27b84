"""Rewritings of the code that change no behaviour. usage: refactors.py [bundle...] [-- check...]
Applies each bundle to /repo, builds, runs the stable tests' packages and all checks, undoes it."""
import subprocess, sys, re, time
R = "/repo"
B = {}

B["A"] = [
 ("utility.go", """	for gid := range identity.GetIDs() {
		if plainAccess.ContainsGroups(gid) && identity.GetIDScope(gid).Contains(scopes) {
			return plainAccess, nil
		}
	}
	return data.Access{}, ErrNotAuthorized
}
""", """	if !mayAccess(identity, &plainAccess, scopes) {
		return data.Access{}, ErrNotAuthorized
	}
	return plainAccess, nil
}

// mayAccess says whether the identity or one of its groups is listed and has the scopes.
func mayAccess(identity *id.Identity, access *data.Access, scopes id.Scope) bool {
	if identity.Scopes.Contains(scopes) && access.ContainsGroups(identity.ID) {
		return true
	}
	for gid, group := range identity.Groups {
		if gid == identity.ID {
			continue
		}
		if group.Scopes.Contains(scopes) && access.ContainsGroups(gid) {
			return true
		}
	}
	return false
}

// open authenticates the caller and opens the access list of the object.
func (d *D1) open(ctx context.Context, token string, oid uuid.UUID, scope id.Scope) (*data.Access, error) {
	identity, err := d.verifyAccess(ctx, token, scope)
	if err != nil {
		return nil, err
	}
	sealed, err := d.getSealedAccess(ctx, oid)
	if err != nil {
		return nil, err
	}
	access, err := d.authorizeAccess(ctx, &identity, scope, sealed)
	if err != nil {
		return nil, err
	}
	return &access, nil
}
"""),
 ("d1.go", """	identity, err := d.verifyAccess(ctx, token, id.ScopeDecrypt)
	if err != nil {
		return data.Object{}, err
	}

	access, err := d.getSealedAccess(ctx, oid)
	if err != nil {
		return data.Object{}, err
	}

	plainAccess, err := d.authorizeAccess(ctx, &identity, id.ScopeDecrypt, access)
	if err != nil {
		return data.Object{}, err
	}

	object, err := d.getSealedObject(ctx, oid)
	if err != nil {
		return data.Object{}, err
	}

	log.Ctx(ctx).Debug().Msg("unsealing object")
	return object.Unseal(plainAccess.WrappedDEK, d.objectCryptor)
""", """	plainAccess, err := d.open(ctx, token, oid, id.ScopeDecrypt)
	if err != nil {
		return data.Object{}, err
	}

	sealed, err := d.getSealedObject(ctx, oid)
	if err != nil {
		return data.Object{}, err
	}

	log.Ctx(ctx).Debug().Msg("opening the object")
	object, err := sealed.Unseal(plainAccess.WrappedDEK, d.objectCryptor)
	if err != nil {
		return data.Object{}, err
	}
	return object, nil
"""),
 ("d1.go", """	identity, err := d.verifyAccess(ctx, token, id.ScopeUpdate)
	if err != nil {
		return err
	}

	access, err := d.getSealedAccess(ctx, oid)
	if err != nil {
		return err
	}

	plainAccess, err := d.authorizeAccess(ctx, &identity, id.ScopeUpdate, access)
	if err != nil {
		return err
	}
""", """	plainAccess, err := d.open(ctx, token, oid, id.ScopeUpdate)
	if err != nil {
		return err
	}
"""),
 ("d1.go", """	access.AddGroups(groups...)
	access.AddGroups(identity.ID)
""", """	access.AddGroups(identity.ID)
	for _, g := range groups {
		access.AddGroups(g)
	}
"""),
 ("d1.go", """	access, err := d.getSealedAccess(ctx, oid)
	switch err {
	case nil:
		// Ignore and proceed
	case ErrAccessNotFound:
		log.Ctx(ctx).Debug().Msg("object not found")
""", """	access, err := d.getSealedAccess(ctx, oid)
	if errors.Is(err, ErrAccessNotFound) {
		log.Ctx(ctx).Debug().Msg("nothing to delete")
"""),
 ("d1.go", """		return nil
	default:
		return err
	}

	if _, err = d.authorizeAccess""", """		return nil
	}
	if err != nil {
		return err
	}

	if _, err = d.authorizeAccess"""),
 ("utility.go", """		if errors.Is(err, io.ErrNotFound) {
			return ErrObjectNotFound
		}
		return err
	}
""", """		switch {
		case err == nil:
			return nil
		case errors.Is(err, io.ErrNotFound):
			return ErrObjectNotFound
		default:
			return err
		}
	}
"""),
 ("utility.go", """	if errors.Is(err, io.ErrNotFound) {
		return nil, ErrAccessNotFound
	}
	if err != nil {
		return nil, err
	}

	access := &data.SealedAccess{}
	if err := json.Unmarshal(accessBytes, access); err != nil {
		return nil, err
	}

	access.OID = oid
	return access, nil
""", """	if err != nil {
		if errors.Is(err, io.ErrNotFound) {
			err = ErrAccessNotFound
		}
		return nil, err
	}

	var access data.SealedAccess
	if err := json.Unmarshal(accessBytes, &access); err != nil {
		return nil, err
	}
	access.OID = oid
	return &access, nil
"""),
 ("d1.go", """	log.WithMethod(ctx, "delete")
	log.WithObjectID(ctx, oid.String())
""", """	log.WithObjectID(ctx, oid.String())
	log.WithMethod(ctx, "delete")
"""),
 ("d1.go", """	// Write data to IO Provider
	if err := d.putSealedObject(ctx, &sealedObject, true); err != nil {
		return err
	}
	if err := d.putSealedAccess(ctx, &sealedAccess, true); err != nil {
		return err
	}

	return nil
}

// Decrypt fetches""", """	// Write data to IO Provider
	err = d.putSealedObject(ctx, &sealedObject, true)
	if err == nil {
		err = d.putSealedAccess(ctx, &sealedAccess, true)
	}
	return err
}

// Decrypt fetches"""),
 ("d1.go", """	objectCryptor, err := crypto.NewAESCryptor(keys.KEK)
	if err != nil {
		return D1{}, err
	}
	log.Ctx(ctx).Debug().Msg("creating access cryptor")
	accessCryptor, err := crypto.NewAESCryptor(keys.AEK)
	if err != nil {
		return D1{}, err
	}
	log.Ctx(ctx).Debug().Msg("creating token cryptor")
	tokenCryptor, err := crypto.NewAESCryptor(keys.TEK)
	if err != nil {
		return D1{}, err
	}
""", """	tokenCryptor, err := crypto.NewAESCryptor(keys.TEK)
	if err != nil {
		return D1{}, err
	}
	accessCryptor, err := crypto.NewAESCryptor(keys.AEK)
	if err != nil {
		return D1{}, err
	}
	objectCryptor, err := crypto.NewAESCryptor(keys.KEK)
	if err != nil {
		return D1{}, err
	}
"""),
]

B["B"] = [
 ("index/index.go", """	decryptedNode := data.Node{}
	identifiers := []string{}

	log.Ctx(ctx).Debug().Msg("searching the index")
	for {
		// Get the next Node. If ErrNodeNotFound, all the identifiers that contain the given keyword
		// have been found, and the function should return them.
		decryptedNode, err = i.getNextNode(ctx, decryptedNode, tagger, cryptor)
		if errors.Is(err, ErrNodeNotFound) {
			break
		}
		if err != nil {
			return nil, err
		}

		identifiers = append(identifiers, decryptedNode.Identifier)
	}

	return identifiers, nil
}
""", """	identifiers := make([]string, 0, 4)
	log.Ctx(ctx).Debug().Msg("walking")
	_, err = i.walk(ctx, tagger, cryptor, func(n *data.Node) { identifiers = append(identifiers, n.Identifier) })
	if err != nil {
		return nil, err
	}
	return identifiers, nil
}

// walk visits all nodes and returns the last one.
func (i *SecureIndex) walk(ctx context.Context, tagger crypto.TaggerInterface, cryptor crypto.CryptorInterface, visit func(*data.Node)) (data.Node, error) {
	node := data.Node{}
	for {
		next, err := i.getNextNode(ctx, node, tagger, cryptor)
		switch {
		case err == nil:
			visit(&next)
			node = next
		case errors.Is(err, ErrNodeNotFound):
			return node, nil
		default:
			return data.Node{}, err
		}
	}
}
"""),
 ("index/index.go", """	decryptedNode := data.Node{}

	for {
		// Get the next Node. If ErrNodeNotFound, then the last Node has been found, and the
		// function should return it.
		nextDecrypted, err := i.getNextNode(ctx, decryptedNode, tagger, cryptor)
		if errors.Is(err, ErrNodeNotFound) {
			return decryptedNode, nil
		}
		if err != nil {
			return data.Node{}, err
		}

		decryptedNode = nextDecrypted
	}
}
""", """	return i.walk(ctx, tagger, cryptor, func(*data.Node) {})
}
"""),
 ("index/index.go", """	log.Ctx(ctx).Debug().Msg("adding new node")
	label, err := last.NextLabel(tagger)
	if err != nil {
		return err
	}

	newNode := data.Node{Identifier: identifier, NextCounter: last.NextCounter + 1}
""", """	newNode := data.Node{Identifier: identifier, NextCounter: last.NextCounter + 1}
"""),
 ("index/index.go", """	sealedNode, err := newNode.Seal(label, cryptor)
	if err != nil {
		return err
	}
	if err = i.putSealedNode(ctx, label, &sealedNode, false); err != nil {
		return err
	}

	return nil
}
""", """	label, err := last.NextLabel(tagger)
	if err != nil {
		return err
	}
	sealedNode, err := newNode.Seal(label, cryptor)
	if err != nil {
		return err
	}
	return i.putSealedNode(ctx, label, &sealedNode, false)
}
"""),
 ("index/index.go", """		if next.Identifier == identifier {
			label, err := current.NextLabel(tagger)
			if err != nil {
				return err
			}
			err = i.deleteNode(ctx, label, next, tagger, cryptor)
			if err != nil {
				return err
			}
		} else {
			// If nothing was deleted, we can move on.
			current = next
		}
""", """		if next.Identifier != identifier {
			current = next
			continue
		}
		label, err := current.NextLabel(tagger)
		if err == nil {
			err = i.deleteNode(ctx, label, next, tagger, cryptor)
		}
		if err != nil {
			return err
		}
"""),
 ("index/index.go", """	if errors.Is(err, ErrNodeNotFound) {
		log.Ctx(ctx).Debug().Msg("last node, deleting")
		if err = i.deleteSealedNode(ctx, label); err != nil {
			return err
		}
		return nil
	}
	if err != nil {
		return err
	}

	// Overwrite original node with the next node
	log.Ctx(ctx).Debug().Msg("overwriting with next node")
	updatedSealedNode, err""", """	if errors.Is(err, ErrNodeNotFound) {
		return i.deleteSealedNode(ctx, label)
	}
	if err != nil {
		return err
	}

	nextLabel, err := node.NextLabel(tagger)
	if err != nil {
		return err
	}

	// Overwrite original node with the next node
	updatedSealedNode, err"""),
 ("index/index.go", """	log.Ctx(ctx).Debug().Msg("deleting next node")
	nextLabel, err := node.NextLabel(tagger)
	if err != nil {
		return err
	}
	if err := i.deleteSealedNode(ctx, nextLabel); err != nil {
		return err
	}

	return nil
""", """	return i.deleteSealedNode(ctx, nextLabel)
"""),
 ("index/index.go", """	k1 := crypto.KMACKDF(crypto.TaggerKeyLength, i.indexKey, []byte("label"), []byte(keyword))
	k2 := crypto.KMACKDF(crypto.EncryptionKeyLength, i.indexKey, []byte("id"), []byte(keyword))

	tagger, err := crypto.NewKMAC256Tagger(k1)
	if err != nil {
		return nil, nil, err
	}
	cryptor, err := crypto.NewAESCryptor(k2)
	if err != nil {
		return nil, nil, err
	}
""", """	kw := []byte(keyword)
	derive := func(length int, label string) []byte {
		return crypto.KMACKDF(length, i.indexKey, []byte(label), kw)
	}
	cryptor, err := crypto.NewAESCryptor(derive(crypto.EncryptionKeyLength, "id"))
	if err != nil {
		return nil, nil, err
	}
	tagger, err := crypto.NewKMAC256Tagger(derive(crypto.TaggerKeyLength, "label"))
	if err != nil {
		return nil, nil, err
	}
"""),
 ("index/index.go", """	nextNode, err := nextSealedNode.Unseal(nextLabel, cryptor)
	if err != nil {
		return data.Node{}, err
	}

	return nextNode, nil
""", """	return nextSealedNode.Unseal(nextLabel, cryptor)
"""),
 ("data/node.go", """	buf := make([]byte, binary.MaxVarintLen64)
	m := binary.PutUvarint(buf, n.NextCounter)

	return tagger.Tag(buf[:m])
""", """	var buf [binary.MaxVarintLen64]byte
	k, c := 0, n.NextCounter
	for ; c >= 0x80; k++ {
		buf[k] = byte(c) | 0x80
		c >>= 7
	}
	buf[k] = byte(c)
	return tagger.Tag(buf[:k+1])
"""),
]

B["C"] = [
 ("id/standalone.go", """	// Authenticate calling user
	identity, err := s.GetIdentity(ctx, token)
	if err != nil {
		return err
	}

	// Check if caller is a member of all groups
	log.Ctx(ctx).Debug().Msgf("checking membership of %d groups", len(gids))
	callerGroups := identity.Groups
	for _, gid := range gids {
		if _, ok := callerGroups[gid]; !ok {
			return ErrNotAuthorized
		}
	}

	// Update user
	user, err := s.getUser(ctx, uid)
	if err != nil {
		return err
	}

	log.Ctx(ctx).Debug().Msgf("adding user to %d groups", len(gids))
	user.addGroups(gids...)
	if err := s.putUser(ctx, uid, user, true); err != nil {
		return err
	}

	return nil
}
""", """	return s.changeGroups(ctx, token, uid, gids, func(u *User) { u.addGroups(gids...) })
}

// changeGroups lets the caller change the membership of a user in the caller's groups.
func (s *Standalone) changeGroups(ctx context.Context, token, uid string, gids []string, change func(*User)) error {
	identity, err := s.GetIdentity(ctx, token)
	if err != nil {
		return err
	}
	for i := len(gids) - 1; i >= 0; i-- {
		if _, ok := identity.Groups[gids[i]]; !ok {
			return ErrNotAuthorized
		}
	}
	user, err := s.getUser(ctx, uid)
	if err != nil {
		return err
	}
	change(user)
	return s.putUser(ctx, uid, user, true)
}
"""),
 ("id/standalone.go", """	// Authenticate calling user
	identity, err := s.GetIdentity(ctx, token)
	if err != nil {
		return err
	}

	// Check if caller is a member of all groups
	log.Ctx(ctx).Debug().Msgf("checking membership of %d groups", len(gids))
	callerGroups := identity.Groups
	for _, gid := range gids {
		if _, ok := callerGroups[gid]; !ok {
			return ErrNotAuthorized
		}
	}

	user, err := s.getUser(ctx, uid)
	if err != nil {
		return err
	}

	log.Ctx(ctx).Debug().Msgf("removing user from %d groups", len(gids))
	user.removeGroups(gids...)
	if err := s.putUser(ctx, uid, user, true); err != nil {
		return err
	}

	return nil
}
""", """	return s.changeGroups(ctx, token, uid, gids, func(u *User) { u.removeGroups(gids...) })
}
"""),
 ("id/standalone.go", """	log.Ctx(ctx).Debug().Msgf("fetching %d groups", len(user.Groups))
	groups := make(map[string]AccessGroup, len(user.Groups))
	for gid := range user.getGroups() {
		group, err := s.getGroup(ctx, gid)
		if err != nil {
			return Identity{}, err
		}

		groups[gid] = AccessGroup{gid, group.Scopes}
	}

	return Identity{
""", """	gids := make([]string, 0, len(user.Groups))
	for gid := range user.Groups {
		gids = append(gids, gid)
	}
	sort.Strings(gids)
	groups := map[string]AccessGroup{}
	for _, gid := range gids {
		group, err := s.getGroup(ctx, gid)
		if err != nil {
			return Identity{}, err
		}
		groups[gid] = AccessGroup{ID: gid, Scopes: group.Scopes}
	}

	return Identity{
"""),
 ("id/standalone.go", '	"errors"\n', '	"errors"\n	"sort"\n'),
 ("id/standalone.go", """	gid, err := uuid.NewV4()
	if err != nil {
		return "", err
	}
	gidString := gid.String()

	log.Ctx(ctx).Debug().Msg("creating new group")
	group := newGroup(scopes...)
	if err := s.putGroup(ctx, gidString, &group); err != nil {
		return "", err
	}

	// Add caller to group
	log.Ctx(ctx).Debug().Msg("adding caller to group")
	user, err := s.getUser(ctx, identity.ID)
	if err != nil {
		return "", err
	}

	user.addGroups(gidString)
	if err := s.putUser(ctx, identity.ID, user, true); err != nil {
		return "", err
	}

	return gidString, nil
""", """	group := newGroup(scopes...)
	gid, err := uuid.NewV4()
	if err != nil {
		return "", err
	}
	if err := s.putGroup(ctx, gid.String(), &group); err != nil {
		return "", err
	}
	if err := s.join(ctx, identity.ID, gid.String()); err != nil {
		return "", err
	}
	return gid.String(), nil
}

// join makes the user a member of the group.
func (s *Standalone) join(ctx context.Context, uid, gid string) error {
	user, err := s.getUser(ctx, uid)
	if err == nil {
		user.addGroups(gid)
		err = s.putUser(ctx, uid, user, true)
	}
	return err
"""),
 ("id/standalone.go", """	user, err := s.getUser(ctx, uid)
	if err != nil {
		return "", 0, ErrNotAuthenticated
	}

	log.Ctx(ctx).Debug().Msg("authenticating")
	if err := user.authenticate(password); err != nil {
		return "", 0, ErrNotAuthenticated
	}
""", """	if user, err := s.getUser(ctx, uid); err != nil || user.authenticate(password) != nil {
		return "", 0, ErrNotAuthenticated
	}
"""),
 ("id/standalone.go", """	tokenString, err := sealedToken.String()
	if err != nil {
		return "", 0, ErrNotAuthenticated
	}

	return tokenString, sealedToken.ExpiryTime.Unix(), nil
""", """	expiry := sealedToken.ExpiryTime.Unix()
	if tokenString, err := sealedToken.String(); err == nil {
		return tokenString, expiry, nil
	}
	return "", 0, ErrNotAuthenticated
"""),
 ("id/standalone_user.go", """	if err := u.authenticate(oldPassword); err != nil {
		return "", err
	}

	newPwd, newSaltAndHash, err := defaultPwdHasher.GeneratePassword()
	if err != nil {
		return "", err
	}

	u.SaltAndHash = newSaltAndHash

	return newPwd, nil
""", """	err := u.authenticate(oldPassword)
	if err != nil {
		return "", err
	}
	var newPwd string
	newPwd, u.SaltAndHash, err = defaultPwdHasher.GeneratePassword()
	return newPwd, err
"""),
 ("id/standalone_user.go", """	plainUser := User{}
	if err := cryptor.Decrypt(&plainUser, u.UID, u.WrappedKey, u.Ciphertext); err != nil {
		return User{}, err
	}
	return plainUser, nil
""", """	var plain User
	err := cryptor.Decrypt(&plain, u.UID, u.WrappedKey, u.Ciphertext)
	if err != nil {
		plain = User{}
	}
	return plain, err
"""),
 ("id/scope.go", """	result := ScopeNone
	for _, scope := range scopes {
		result |= scope
	}
	return result
""", """	if len(scopes) == 0 {
		return ScopeNone
	}
	return scopes[0] | ScopeUnion(scopes[1:]...)
"""),
 ("id/scope.go", "	return (s & scope) == scope\n", "	return scope&^s == 0\n"),
 ("id/id.go", """	if id == i.ID {
		return i.Scopes
	}
	if group, ok := i.Groups[id]; ok {
		return group.Scopes
	}
	return ScopeNone
""", """	if id != i.ID {
		return i.Groups[id].Scopes
	}
	return i.Scopes
"""),
]

B["D"] = [
 ("crypto/aes.go", """	data := ciphertext[:len(plaintext)]
	aesblock, err := aes.NewCipher(key)
	if err != nil {
		return nil, err
	}

	aesgcm, err := cipher.NewGCM(aesblock)
	if err != nil {
		return nil, err
	}

	aesgcm.Seal(data[:0], nonce, data, aad)
""", """	data := ciphertext[:len(plaintext)]
	aesgcm, err := newGCM(key)
	if err != nil {
		return nil, err
	}

	aesgcm.Seal(data[:0], nonce, data, aad)
"""),
 ("crypto/aes.go", """	aesblock, err := aes.NewCipher(key)
	if err != nil {
		return nil, err
	}

	aesgcm, err := cipher.NewGCM(aesblock)
	if err != nil {
		return nil, err
	}

	_, err = aesgcm.Open(data[:0], nonce, data, aad)
	if err != nil {
		return nil, err
	}

	return ciphertext[:len(ciphertext)-Overhead], err
}
""", """	aesgcm, err := newGCM(key)
	if err != nil {
		return nil, err
	}

	if _, err = aesgcm.Open(data[:0], nonce, data, aad); err != nil {
		return nil, err
	}
	return data[:len(data)-tagLength], nil
}

func newGCM(key []byte) (cipher.AEAD, error) {
	block, err := aes.NewCipher(key)
	if err != nil {
		return nil, err
	}
	return cipher.NewGCM(block)
}
"""),
 ("crypto/cryptor.go", """	plaintextBytes, err := json.Marshal(plaintext)
	if err != nil {
		return nil, nil, err
	}

	dataBytes, err := json.Marshal(data)
	if err != nil {
		return nil, nil, err
	}

	key, err := c.random.GetBytes(EncryptionKeyLength)
	if err != nil {
		return nil, nil, err
	}

	ciphertext, err := c.aead.Encrypt(plaintextBytes, dataBytes, key)
	if err != nil {
		return nil, nil, err
	}

	wrappedKey, err := c.keyWrapper.Wrap(key)
	if err != nil {
		return nil, nil, err
	}
""", """	dataBytes, err := json.Marshal(data)
	if err != nil {
		return nil, nil, err
	}
	plaintextBytes, err := json.Marshal(plaintext)
	if err != nil {
		return nil, nil, err
	}

	key, err := c.random.GetBytes(EncryptionKeyLength)
	if err != nil {
		return nil, nil, err
	}
	wrappedKey, err := c.keyWrapper.Wrap(key)
	if err != nil {
		return nil, nil, err
	}
	ciphertext, err := c.aead.Encrypt(plaintextBytes, dataBytes, key)
	if err != nil {
		return nil, nil, err
	}
"""),
 ("crypto/cryptor.go", """	key, err := c.keyWrapper.Unwrap(wrappedKey)
	if err != nil {
		return err
	}

	dataBytes, err := json.Marshal(data)
	if err != nil {
		return err
	}
""", """	dataBytes, err := json.Marshal(data)
	if err != nil {
		return err
	}
	key, err := c.keyWrapper.Unwrap(wrappedKey)
	if err != nil {
		return err
	}
"""),
 ("crypto/kwp.go", """			// xor the round constant in big endian order
			// to the left half of the buffer
			roundConst := uint(i*blockCount + j + 1)
			for b := 0; b < 4; b++ {
				buf[7-b] ^= byte(roundConst & 0xFF)
				roundConst >>= 8
			}

			copy(data[8*(j+1):], buf[8:])
		}
	}
	copy(data[:8], buf)
""", """			t := uint64(uint32(i*blockCount + j + 1))
			binary.BigEndian.PutUint64(buf, binary.BigEndian.Uint64(buf)^t)

			copy(data[8*(j+1):], buf[8:])
		}
	}
	copy(data[:8], buf)
"""),
 ("crypto/kmac.go", """	k.initBlock = make([]byte, 0, 9+len(key))
	k.initBlock = append(k.initBlock, leftEncode(uint64(len(key)*8))...)
	k.initBlock = append(k.initBlock, key...)
	k.Write(bytepad(k.initBlock, k.BlockSize())) //nolint:errcheck
	return k
""", """	k.initBlock = bytepad(append(leftEncode(uint64(len(key))*8), key...), blockSize)
	k.Write(k.initBlock) //nolint:errcheck
	return k
"""),
 ("crypto/kmac.go", """	k.ShakeHash.Reset()
	k.Write(bytepad(k.initBlock, k.BlockSize())) //nolint:errcheck
""", """	k.ShakeHash.Reset()
	k.Write(k.initBlock) //nolint:errcheck
"""),
 ("crypto/password.go", """	hash := pbkdf2.Key([]byte(password), salt, iterationCount, hashLength, sha3.New256)
	saltAndHash := append(salt, hash...)

	return password, saltAndHash, nil
""", """	return password, append(salt, passwordHash([]byte(password), salt)...), nil
"""),
 ("crypto/password.go", """	passwordBytes, err := p.random.GetBytes(passwordLength)
	if err != nil {
		return "", nil, err
	}
	password := base64.RawURLEncoding.EncodeToString(passwordBytes)

	salt, err := p.random.GetBytes(saltLength)
	if err != nil {
		return "", nil, err
	}
""", """	salt, err := p.random.GetBytes(saltLength)
	if err != nil {
		return "", nil, err
	}
	passwordBytes, err := p.random.GetBytes(passwordLength)
	if err != nil {
		return "", nil, err
	}
	password := base64.RawURLEncoding.EncodeToString(passwordBytes)
"""),
 ("crypto/random.go", """	bytes := make([]byte, n)
	if _, err := rand.Read(bytes); err != nil {
		return nil, err
	}
	return bytes, nil
""", """	bytes := make([]byte, n)
	if _, err := io.ReadFull(rand.Reader, bytes); err != nil {
		return nil, err
	}
	return bytes, nil
"""),
 ("crypto/random.go", '	"errors"\n', '	"errors"\n	"io"\n'),
 ("crypto/tagger.go", """	mac := NewKMAC256(t.Key, TagLength, dataBytes)
	macSum := mac.Sum(nil)

	return macSum, nil
""", """	return NewKMAC256(t.Key, TagLength, dataBytes).Sum(make([]byte, 0, TagLength)), nil
"""),
]

B["E"] = [
 ("io/bolt.go", """func (b *Bolt) Put(_ context.Context, id []byte, dataType DataType, data []byte) error {
	key := boltKey(id, dataType)
	return b.store.Update(func(tx *bolt.Tx) error {
		b := tx.Bucket(b.objectBucket)
		if b.Get(key) != nil {
			return ErrAlreadyExists
		}
		return b.Put(key, data)
	})
}
""", """func (b *Bolt) Put(_ context.Context, id []byte, dataType DataType, data []byte) error {
	return b.write(id, dataType, func(bucket *bolt.Bucket, key []byte) error {
		if old := bucket.Get(key); old != nil {
			return ErrAlreadyExists
		}
		return bucket.Put(key, data)
	})
}

// write runs f in a transaction.
func (b *Bolt) write(id []byte, dataType DataType, f func(bucket *bolt.Bucket, key []byte) error) error {
	tx, err := b.store.Begin(true)
	if err != nil {
		return err
	}
	defer tx.Rollback() //nolint:errcheck
	if err := f(tx.Bucket(b.objectBucket), boltKey(id, dataType)); err != nil {
		return err
	}
	return tx.Commit()
}
"""),
 ("io/bolt.go", """	key := boltKey(id, dataType)
	return b.store.Update(func(tx *bolt.Tx) error {
		b := tx.Bucket(b.objectBucket)
		if b.Get(key) == nil {
			return ErrNotFound
		}
		return b.Put(key, data)
	})
}
""", """	return b.write(id, dataType, func(bucket *bolt.Bucket, key []byte) error {
		if bucket.Get(key) == nil {
			return ErrNotFound
		}
		return bucket.Put(key, data)
	})
}
"""),
 ("io/mem.go", """	data sync.Map

	// writes makes the existence check and the write of Put and Update a single step.
	writes sync.Mutex
}
""", """	data sync.Map // entry -> bytes

	// writes makes the existence check and the write of Put and Update a single step.
	writes sync.RWMutex
}

type entry struct {
	id string
	t  DataType
}
"""),
 ("io/mem.go", """func newKey(id []byte, dataType DataType) string {
	key := fmt.Sprintf("%x:%s", id, dataType.String())
	return key
}
""", """func newKey(id []byte, dataType DataType) entry {
	return entry{string(id), dataType}
}
"""),
 ("io/mem.go", '	"fmt"\n', ''),
 ("io/mem.go", """	key := newKey(id, dataType)
	out, ok := m.data.Load(key)
""", """	key := newKey(id, dataType)
	m.writes.RLock()
	defer m.writes.RUnlock()
	out, ok := m.data.Load(key)
"""),
 ("io/io.go", """	b := make([]byte, binary.MaxVarintLen16)
	binary.LittleEndian.PutUint16(b, uint16(d))
	return b
""", """	return []byte{byte(d), byte(d >> 8), 0}
"""),
 ("io/io.go", '	"encoding/binary"\n', ''),
 ("io/io.go", '	"fmt"\n', '	"strconv"\n'),
 ("io/io.go", '	return fmt.Sprintf("%d", d)\n', '	return strconv.Itoa(int(d))\n'),
 ("data/object.go", """	associatedData := make([]byte, 0, uuid.Size+len(o.AssociatedData))
	associatedData = append(associatedData, oid.Bytes()...)
	associatedData = append(associatedData, o.AssociatedData...)

	wrappedKey, ciphertext, err := cryptor.Encrypt(o.Plaintext, associatedData)
""", """	wrappedKey, ciphertext, err := cryptor.Encrypt(o.Plaintext, bound(oid, o.AssociatedData))
"""),
 ("data/object.go", """	associatedData := make([]byte, 0, uuid.Size+len(o.AssociatedData))
	associatedData = append(associatedData, o.OID.Bytes()...)
	associatedData = append(associatedData, o.AssociatedData...)

	plaintext := []byte{}
	err := cryptor.Decrypt(&plaintext, associatedData, wrappedKey, o.Ciphertext)
	if err != nil {
		return Object{}, err
	}

	return Object{
		Plaintext:      plaintext,
		AssociatedData: o.AssociatedData,
	}, nil
}
""", """	object := Object{Plaintext: []byte{}, AssociatedData: o.AssociatedData}
	if err := cryptor.Decrypt(&object.Plaintext, bound(o.OID, o.AssociatedData), wrappedKey, o.Ciphertext); err != nil {
		return Object{}, err
	}
	return object, nil
}

// bound is the data authenticated with an object: its identifier and its associated data.
func bound(oid uuid.UUID, associatedData []byte) []byte {
	b := make([]byte, uuid.Size+len(associatedData))
	copy(b[copy(b, oid[:]):], associatedData)
	return b
}
"""),
 ("data/token.go", "	if t.ExpiryTime.Before(time.Now()) {\n", "	if now := time.Now(); now.After(t.ExpiryTime) {\n"),
 ("data/token.go", """	b, err := json.Marshal(t)
	if err != nil {
		return "", err
	}

	return base64.RawURLEncoding.EncodeToString(b), nil
""", """	b, err := json.Marshal(*t)
	if err != nil {
		return "", err
	}
	out := make([]byte, base64.RawURLEncoding.EncodedLen(len(b)))
	base64.RawURLEncoding.Encode(out, b)
	return string(out), nil
"""),
 ("data/access.go", """	for _, id := range ids {
		if _, exists := a.Groups[id]; !exists {
			return false
		}
	}
	return true
""", """	missing := 0
	for i := range ids {
		if _, exists := a.Groups[ids[i]]; !exists {
			missing++
		}
	}
	return missing == 0
"""),
 ("log/log.go", """	l.UpdateContext(func(c zerolog.Context) zerolog.Context {
		return c.Str(key, value)
	})
""", """	add := func(c zerolog.Context) zerolog.Context { return c.Str(key, value) }
	l.UpdateContext(add)
"""),
]

# less strict: other orders of steps, other messages, extra checks; what users can rely on is the same
B["F"] = [
 # nothing written if nothing changes
 ("id/standalone_user.go", """	plainUser := User{}
	if err := cryptor.Decrypt(""", """	plainUser := User{Groups: map[string]struct{}{}}
	if err := cryptor.Decrypt("""),
 ("id/standalone.go", """	log.Ctx(ctx).Debug().Msgf("adding user to %d groups", len(gids))
	user.addGroups(gids...)
""", """	if user.containsGroups(gids...) {
		return nil
	}
	log.Ctx(ctx).Debug().Msgf("adding user to %d groups", len(gids))
	user.addGroups(gids...)
"""),
 ("d1.go", """func (d *D1) Encrypt(ctx context.Context, token string, object *data.Object, groups ...string) (uuid.UUID, error) {
	ctx = log.CopyCtxLogger(ctx)
	log.WithMethod(ctx, "encrypt")

	identity, err := d.verifyAccess(ctx, token, id.ScopeEncrypt)
	if err != nil {
		return uuid.Nil, err
	}

	oid, err := uuid.NewV4()
	if err != nil {
		return uuid.Nil, err
	}
	log.WithObjectID(ctx, oid.String())
""", """func (d *D1) Encrypt(ctx context.Context, token string, object *data.Object, groups ...string) (uuid.UUID, error) {
	ctx = log.CopyCtxLogger(ctx)
	log.WithMethod(ctx, "encrypt")

	oid, err := uuid.NewV4()
	if err != nil {
		return uuid.Nil, err
	}

	identity, err := d.verifyAccess(ctx, token, id.ScopeEncrypt)
	if err != nil {
		return uuid.Nil, err
	}
	log.WithObjectID(ctx, oid.String())
	groups = append([]string{}, groups...)
"""),
 # fmt.Errorf around errors
 ("utility.go", """	plainAccess, err := sealedAccess.Unseal(d.accessCryptor)
	if err != nil {
		return data.Access{}, err
	}
""", """	plainAccess, err := sealedAccess.Unseal(d.accessCryptor)
	if err != nil {
		return data.Access{}, fmt.Errorf("access list of %v: %w", sealedAccess.OID, err)
	}
"""),
 ("utility.go", '	"errors"\n', '	"errors"\n	"fmt"\n'),
 ("utility.go", '		return id.Identity{}, ErrNotAuthenticated\n', '		return id.Identity{}, fmt.Errorf("%w: %v", ErrNotAuthenticated, "identity provider refuses")\n'),
 # extra look before use
 ("d1.go", """	log.WithMethod(ctx, "get token contents")
""", """	log.WithMethod(ctx, "get token contents")
	if err := ctx.Err(); err != nil {
		return nil, err
	}
"""),
 ("index/index.go", """	log.WithMethod(ctx, "add")
""", """	log.WithMethod(ctx, "add")
	if err := ctx.Err(); err != nil {
		return err
	}
"""),
 # group read before anything is written
 ("id/standalone.go", """	log.Ctx(ctx).Debug().Msg("creating new group")
	group := newGroup(scopes...)
	if err := s.putGroup(ctx, gidString, &group); err != nil {
		return "", err
	}

	// Add caller to group
	log.Ctx(ctx).Debug().Msg("adding caller to group")
	user, err := s.getUser(ctx, identity.ID)
	if err != nil {
		return "", err
	}
""", """	user, err := s.getUser(ctx, identity.ID)
	if err != nil {
		return "", err
	}

	log.Ctx(ctx).Debug().Msg("creating new group")
	group := newGroup(scopes...)
	if err := s.putGroup(ctx, gidString, &group); err != nil {
		return "", err
	}
"""),
 ("id/standalone.go", """	uid, err := uuid.NewV4()
	if err != nil {
		return "", "", err
	}
	uidString := uid.String()

	log.Ctx(ctx).Debug().Msg("creating new user")
	user, password, err := newUser(scopes...)
	if err != nil {
		return "", "", err
	}
""", """	user, password, err := newUser(scopes...)
	if err != nil {
		return "", "", err
	}
	uid, err := uuid.NewV4()
	if err != nil {
		return "", "", err
	}
	uidString := uid.String()
"""),
 # storage errors keep their message
 ("index/index.go", """	if errors.Is(err, io.ErrNotFound) {
		return nil, ErrNodeNotFound
	}
""", """	if errors.Is(err, io.ErrNotFound) {
		return nil, fmt.Errorf("%w: %x", ErrNodeNotFound, tag)
	}
"""),
 ("crypto/cryptor.go", """	key, err := c.random.GetBytes(EncryptionKeyLength)
	if err != nil {
		return nil, nil, err
	}

	ciphertext, err""", """	key, err := c.random.GetBytes(EncryptionKeyLength)
	if err != nil {
		return nil, nil, err
	}
	defer func() {
		for i := range key {
			key[i] = 0
		}
	}()

	ciphertext, err"""),
 ("crypto/cryptor.go", """	// Need to copy here, as AEADInterface is allowed to modify the array.
	ciphertextCopy := make([]byte, len(ciphertext))
	copy(ciphertextCopy, ciphertext)
""", """	// Need to copy here, as AEADInterface is allowed to modify the array.
	ciphertextCopy := append(make([]byte, 0, len(ciphertext)+64), ciphertext...)
	defer func() {
		for i := range key {
			key[i] = 0
		}
	}()
"""),
 ("crypto/aes.go", """	if len(ciphertext) < Overhead {
		return nil, errors.New("invalid ciphertext length")
	}
""", """	if n := len(ciphertext); n < Overhead {
		return nil, fmt.Errorf("invalid ciphertext length %d", n)
	}
"""),
 ("crypto/aes.go", '	"errors"\n', '	"errors"\n	"fmt"\n'),
]

B["G"] = [
 ("crypto/kwp.go", """	iv := make([]byte, 8)
	binary.BigEndian.PutUint32(iv, ivPrefix)
	binary.BigEndian.PutUint32(iv[4:], uint32(len(data)))

	return kwp.computeW(iv, data)
""", """	return kwp.computeW(ivFor(len(data)), data)
"""),
 ("crypto/kwp.go", """var errIntegrity =""", """// ivFor makes the initial value for key material of the given size.
func ivFor(size int) []byte {
	return binary.BigEndian.AppendUint32(binary.BigEndian.AppendUint32(nil, ivPrefix), uint32(size))
}

var errIntegrity ="""),
 ("crypto/kwp.go", """	for i := 8 + encodedSize; i < len(unwrapped); i++ {
		if unwrapped[i] != 0 {
			return nil, errIntegrity
		}
	}

	return unwrapped[8 : 8+encodedSize], nil
""", """	key, padding := unwrapped[8:8+encodedSize], unwrapped[8+encodedSize:]
	var rest byte
	for _, b := range padding {
		rest |= b
	}
	if rest != 0 {
		return nil, errIntegrity
	}

	return append([]byte(nil), key...), nil
"""),
 ("data/token.go", """	expiryTime := time.Now().Add(validityPeriod)
	return Token{plaintext, expiryTime}
""", """	return Token{Plaintext: plaintext, ExpiryTime: time.Now().Add(validityPeriod)}
"""),
 ("data/token.go", """	plaintext := []byte{}
	err := cryptor.Decrypt(&plaintext, t.ExpiryTime, t.WrappedKey, t.Ciphertext)
	if err != nil {
		return Token{}, err
	}

	return Token{plaintext, t.ExpiryTime}, nil
""", """	token := Token{Plaintext: []byte{}, ExpiryTime: t.ExpiryTime}
	if err := cryptor.Decrypt(&token.Plaintext, t.ExpiryTime, t.WrappedKey, t.Ciphertext); err != nil {
		return Token{}, err
	}
	return token, nil
"""),
 ("id/standalone.go", """	user, err := s.getUser(ctx, uid)
	if err != nil {
		return "", ErrNotAuthenticated
	}

	log.Ctx(ctx).Debug().Msg("updating password")
	newPwd, err := user.changePassword(oldPassword)
	if err != nil {
		return "", ErrNotAuthenticated
	}
""", """	user, err := s.getUser(ctx, uid)
	var newPwd string
	if err == nil {
		log.Ctx(ctx).Debug().Msg("updating password")
		newPwd, err = user.changePassword(oldPassword)
	}
	if err != nil {
		return "", ErrNotAuthenticated
	}
"""),
 ("id/standalone.go", """	// Authenticate calling user
	if _, err := s.GetIdentity(ctx, token); err != nil {
		return err
	}

	log.Ctx(ctx).Debug().Msg("deleting user")
	return s.ioProvider.Delete(ctx, []byte(uid), DataTypeSealedUser)
""", """	// Authenticate calling user
	_, err := s.GetIdentity(ctx, token)
	if err == nil {
		log.Ctx(ctx).Debug().Msg("deleting user")
		err = s.ioProvider.Delete(ctx, []byte(uid), DataTypeSealedUser)
	}
	return err
"""),
 ("index/index.go", """	if err = i.putSealedNode(ctx, label, &sealedNode, false); err != nil {
		return err
	}

	return nil
""", """	return i.putSealedNode(ctx, label, &sealedNode, false)
"""),
 ("index/index.go", """	if !identity.Scopes.Contains(id.ScopeIndex) {
		log.Ctx(ctx).Debug().Stringer("scope", id.ScopeIndex).Msg("scope missing")
		return ErrNotAuthorized
	}

	return nil
""", """	if identity.Scopes.Contains(id.ScopeIndex) {
		return nil
	}
	log.Ctx(ctx).Debug().Stringer("scope", id.ScopeIndex).Str("caller", identity.ID).Msg("scope missing")
	return ErrNotAuthorized
"""),
 ("utility.go", """	objectBytes, err := json.Marshal(object)
	if err != nil {
		return err
	}

	if update {
		log.Ctx(ctx).Debug().Msg("updating stored object")
		err := d.ioProvider.Update(ctx, object.OID.Bytes(), io.DataTypeSealedObject, objectBytes)
		if errors.Is(err, io.ErrNotFound) {
			return ErrObjectNotFound
		}
		return err
	}

	log.Ctx(ctx).Debug().Msg("storing new object")
	err = d.ioProvider.Put(ctx, object.OID.Bytes(), io.DataTypeSealedObject, objectBytes)
	if errors.Is(err, io.ErrAlreadyExists) {
		return ErrObjectAlreadyExists
	}
	return err
""", """	objectBytes, err := json.Marshal(object)
	if err != nil {
		return err
	}
	store, what := d.ioProvider.Put, "storing new object"
	if update {
		store, what = d.ioProvider.Update, "updating stored object"
	}
	log.Ctx(ctx).Debug().Int("bytes", len(objectBytes)).Msg(what)
	err = store(ctx, object.OID.Bytes(), io.DataTypeSealedObject, objectBytes)
	if update && errors.Is(err, io.ErrNotFound) {
		return ErrObjectNotFound
	}
	if !update && errors.Is(err, io.ErrAlreadyExists) {
		return ErrObjectAlreadyExists
	}
	return err
"""),
 ("key/static.go", """	return s.keys, nil
""", """	k := s.keys
	k.KEK, k.AEK = append([]byte(nil), k.KEK...), append([]byte(nil), k.AEK...)
	return k, nil
"""),
 ("log/log.go", """	l := zerolog.Ctx(ctx).With().Logger()
	return l.WithContext(ctx)
""", """	own := Ctx(ctx).With().Logger()
	return (&own).WithContext(ctx)
"""),
 ("crypto/password.go", """	salt := saltAndHash[:saltLength]
	hash := saltAndHash[saltLength:]
	return subtle.ConstantTimeCompare(passwordHash([]byte(password), salt), hash) == 1
""", """	if len(saltAndHash) != saltLength+hashLength {
		return false
	}
	salt, hash := saltAndHash[:saltLength], saltAndHash[saltLength:]
	return subtle.ConstantTimeCompare(hash, passwordHash([]byte(password), salt)) == 1
"""),
 ("crypto/kdf.go", """	for _, c := range context {
		K.Write(c)
	}
	return K.Sum(nil)
""", """	var all []byte
	for _, c := range context {
		all = append(all, c...)
	}
	K.Write(all) //nolint:errcheck
	return K.Sum(make([]byte, 0, size))
"""),
 ("io/proxy.go", """	return o.GetFunc(ctx, id, dataType)
""", """	b, err := o.GetFunc(ctx, id, dataType)
	return b, err
"""),
]

def sh(c, **k): return subprocess.run(c, shell=True, capture_output=True, text=True, **k)

def main():
    a = sys.argv[1:]
    checks = []
    if "--" in a:
        checks = a[a.index("--")+1:]; a = a[:a.index("--")]
    checks = checks or ["C%02d" % i for i in range(1, 35)]
    assert not sh("git -C /repo status --porcelain").stdout.strip()
    for name in a or sorted(B):
        try:
            for f, old, new in B[name]:
                p = R+"/"+f
                s = open(p).read()
                assert old in s, (name, f, old)
                open(p, "w").write(s.replace(old, new, 1))
            r = sh("bash /opt/vp/build.sh && bash /opt/vp/test.sh /tmp/rf.json")
            import json
            try:
                want = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
                got = set(json.load(open("/tmp/rf.json"))["passed"])
            except Exception as e:
                print(r.stdout[-1500:], r.stderr[-1500:]); raise
            print(name, "stable tests failing:", sorted(want-got)[:5], flush=True)
            if want-got: print(r.stdout[-1500:])
            for c in checks:
                t = time.time()
                r = sh("cd /verif && python3 run.py "+c)
                if r.returncode:
                    print(name, c, "rc", r.returncode, "\n".join(r.stdout.splitlines()[-14:]), flush=True)
            print(name, "done", flush=True)
        finally:
            sh("git -C /repo checkout -- .")
if __name__ == "__main__":
    main()
