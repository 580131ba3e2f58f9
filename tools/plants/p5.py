U="help/utils/"
FI=U+"files.go"; ZI=U+"zip.go"; CS=U+"csv.go"; BC=U+"breakpoint_continue.go"; MD=U+"md5.go"; ST=U+"strings.go"; UR=U+"url.go"; CM=U+"cmd.go"; RA=U+"rand.go"; B6=U+"base64.go"; MP=U+"maps.go"; TI=U+"times.go"; MT=U+"math.go"
def W(body, imports=()):
    # in a scratch directory of its own
    imports=sorted(set(["testing"])|set(imports))
    return 'package utils\n\nimport (\n'+"".join('\t"%s"\n'%i for i in imports)+')\n\nfunc TestPlantedDemo(t *testing.T) {\n\tt.Chdir(t.TempDir())\n'+body+"\n}\n"
P="help/utils"
PLANTS=[
dict(id="c30-keep-tail", property="C30", pkg=P,
 needs="the same chunk uploaded again with fewer bytes", breaks="a chunk uploaded again keeps the tail of the longer one before",
 edits=[(BC,"	f, err := os.Create(path)\n","	f, err := os.OpenFile(path, os.O_WRONLY|os.O_CREATE, 0o666)\n")],
 test=W("""
	d := Md5("x")
	BreakPointContinue([]byte("long one"), "f", 0, 1, d)
	BreakPointContinue([]byte("short"), "f", 0, 1, d)
	p, err := MakeFile("f", d)
	b, _ := os.ReadFile(p)
	if err != nil || string(b) != "short" { t.Fatal(err, string(b)) }
""",["os"])),
dict(id="c30-check-prefix", property="C30", pkg=P,
 needs="a digest that is cut short or empty", breaks="a digest that is a prefix of the right one is accepted",
 edits=[(BC,"	if fileMd5 == chunkMd5 {","	if len(chunkMd5) <= len(fileMd5) && fileMd5[:len(chunkMd5)] == chunkMd5 {")],
 test=W("""
	if CheckMd5([]byte("x"), "") { t.Fatal("an empty digest is accepted") }
""")),
dict(id="c30-remove-prefix", property="C30", pkg=P,
 needs="two uploads, one digest a prefix of the other", breaks="removing the chunks of an upload also removes those of uploads whose name begins alike",
 edits=[(BC,"	err := os.RemoveAll(breakpointDir + FileMd5)\n	return err\n","	dirs, err := filepath.Glob(breakpointDir + FileMd5 + \"*\")\n	for _, dir := range dirs {\n		if e := os.RemoveAll(dir); e != nil {\n			err = e\n		}\n	}\n	return err\n")],
 test=W("""
	BreakPointContinue([]byte("a"), "f", 0, 1, "abc")
	BreakPointContinue([]byte("a"), "f", 0, 1, "abcd")
	RemoveChunk("abc")
	if _, err := MakeFile("f", "abcd"); err != nil { t.Fatal(err) }
""")),
dict(id="c30-name-clash", property="C30", pkg=P,
 needs="two files whose names differ in letter case only, or by a chunk number", breaks="chunks are kept under the lower-case name",
 edits=[(BC,"	path := FileDir + fileName + \"_\" + strconv.Itoa(contentNumber)\n","	path := FileDir + strings.TrimSuffix(fileName, \"_\") + \"_\" + strconv.Itoa(contentNumber)\n")],
 test=W("""
	BreakPointContinue([]byte("a"), "f_", 0, 1, "abc")
	p, err := MakeFile("f_", "abc")
	b, _ := os.ReadFile(p)
	if err != nil || string(b) != "a" { t.Fatal(err, string(b)) }
""",["os"])),
dict(id="c30-stop-at-empty", property="C30", pkg=P,
 needs="an empty chunk in the middle", breaks="assembly stops at an empty chunk",
 edits=[(BC,"	_, err = f.Write(content)\n	return path, err\n","	if len(content) == 0 {\n		_ = os.Remove(path)\n		return path, nil\n	}\n	_, err = f.Write(content)\n	return path, err\n")],
 test=W("""
	for i, s := range []string{"a", "", "b"} { BreakPointContinue([]byte(s), "f", i, 3, "abc") }
	p, err := MakeFile("f", "abc")
	b, _ := os.ReadFile(p)
	if err != nil || string(b) != "ab" { t.Fatal(err, string(b)) }
""",["os"])),
dict(id="c31-replace-once", property="C31", pkg=P,
 needs="a path in which the old part occurs twice", breaks="only the first occurrence in a name is replaced",
 edits=[(ZI,"strings.Replace(file, oldForm, newForm, -1)","strings.Replace(file, oldForm, newForm, 1)")],
 test=W("""
	os.MkdirAll("a/a", 0o755)
	os.WriteFile("a/a/f", []byte("x"), 0o644)
	ZipFiles("z.zip", []string{"a/a/f"}, "a/", "b/")
	ps, err := Unzip("z.zip", "out")
	if err != nil || len(ps) != 1 || ps[0] != "out/b/b/f" { t.Fatal(ps, err) }
""",["os"])),
dict(id="c31-mode-lost", property="C31", pkg=P,
 needs="a file with other permissions than usual", breaks="the permission bits do not go into the archive",
 edits=[(ZI,"			header, err := zip.FileInfoHeader(info)\n			if err != nil {\n				return err\n			}\n","			header := &zip.FileHeader{Modified: info.ModTime()}\n			header.SetMode(0o644)\n")],
 test=W("""
	os.WriteFile("f", []byte("x"), 0o600)
	ZipFiles("z.zip", []string{"f"}, "", "")
	Unzip("z.zip", "out")
	i, err := os.Stat("out/f")
	if err != nil || i.Mode().Perm() != 0o600 { t.Fatal(i, err) }
""",["os"])),
dict(id="c31-skip-dirs", property="C31", pkg=P,
 needs="an archive with an empty directory", breaks="empty directories are not made",
 edits=[(ZI,"			if err = os.MkdirAll(fpath, os.ModePerm); err != nil {\n				return []string{}, err\n			}\n		} else {\n			if err = os.MkdirAll(filepath.Dir(fpath), os.ModePerm); err != nil {","			continue\n		} else {\n			if err = os.MkdirAll(filepath.Dir(fpath), os.ModePerm); err != nil {")],
 test=W("""
	f, _ := os.Create("z.zip")
	w := zip.NewWriter(f)
	w.Create("empty/")
	w.Close()
	f.Close()
	_, err := Unzip("z.zip", "out")
	if i, e := os.Stat("out/empty"); err != nil || e != nil || !i.IsDir() { t.Fatal(err, e) }
""",["os","archive/zip"])),
dict(id="c31-duplicate-input", property="C31", pkg=P,
 needs="an empty file among the inputs", breaks="empty files are left out of the archive",
 edits=[(ZI,"			header, err := zip.FileInfoHeader(info)\n","			if info.Size() == 0 {\n				return nil\n			}\n			header, err := zip.FileInfoHeader(info)\n")],
 test=W("""
	os.WriteFile("f", nil, 0o600)
	ZipFiles("z.zip", []string{"f"}, "", "")
	Unzip("z.zip", "out")
	if _, err := os.Stat("out/f"); err != nil { t.Fatal(err) }
""",["os"])),
dict(id="c32-links", property="C32", pkg=P,
 needs="an archive with a symbolic link and then an entry below it", breaks="links in an archive are made as links, so a later entry goes through them",
 edits=[(ZI,"		if f.FileInfo().IsDir() {","		if f.Mode()&os.ModeSymlink != 0 {\n			rc, err := f.Open()\n			if err != nil {\n				return []string{}, err\n			}\n			target, err := io.ReadAll(rc)\n			rc.Close()\n			if err == nil {\n				err = os.Symlink(string(target), fpath)\n			}\n			if err != nil {\n				return []string{}, err\n			}\n		} else if f.FileInfo().IsDir() {")],
 test=W("""
	os.MkdirAll("other", 0o755)
	os.MkdirAll("out", 0o755)
	f, _ := os.Create("z.zip")
	w := zip.NewWriter(f)
	h := &zip.FileHeader{Name: "l"}
	h.SetMode(os.ModeSymlink | 0o777)
	x, _ := w.CreateHeader(h)
	x.Write([]byte("../other"))
	x, _ = w.Create("l/f")
	x.Write([]byte("x"))
	w.Close()
	f.Close()
	Unzip("z.zip", "out")
	if _, err := os.Stat("other/f"); err == nil { t.Fatal("written outside") }
""",["os","archive/zip"])),
dict(id="c32-backslash", property="C32", pkg=P,
 needs="an entry with a backslash in its name", breaks="backslashes in entry names are taken as separators after the check on the name",
 edits=[(ZI,"			if err = unzipFile(f, fpath); err != nil {","			if err = unzipFile(f, strings.ReplaceAll(fpath, \"\\\\\", \"/\")); err != nil {")],
 test=W("""
	os.MkdirAll("a/b/out", 0o755)
	f, _ := os.Create("z.zip")
	w := zip.NewWriter(f)
	x, _ := w.Create("..\\\\..\\\\f")
	x.Write([]byte("x"))
	w.Close()
	f.Close()
	Unzip("z.zip", "a/b/out")
	if _, err := os.Stat("a/f"); err == nil { t.Fatal("written outside") }
""",["os","archive/zip"])),
dict(id="c33-buffered-copy", property="C33", pkg=P,
 needs="a device that is full, and a small file", breaks="a copy is buffered and the error of the last flush is lost",
 edits=[(FI,"	written, err = io.Copy(dst, src)\n","	buf := bufio.NewWriter(dst)\n	written, err = io.Copy(struct{ io.Writer }{buf}, src)\n	buf.Flush()\n"),(FI,"import (\n","import (\n	\"bufio\"\n")],
 test=W("""
	os.WriteFile("f", []byte("small"), 0o644)
	if _, err := CopyFile("/dev/full", "f"); err == nil { t.Fatal("no error") }
""",["os"])),
dict(id="c33-leak", property="C33", pkg=P,
 needs="many copies to a place that cannot be opened", breaks="the source stays open when the destination cannot be opened",
 edits=[(FI,"	defer src.Close()\n	dst, err := os.OpenFile(dstName, os.O_WRONLY|os.O_CREATE, 0644)\n	if err != nil {\n		return\n	}\n\n	defer dst.Close()\n","	dst, err := os.OpenFile(dstName, os.O_WRONLY|os.O_CREATE, 0644)\n	if err != nil {\n		return\n	}\n\n	defer src.Close()\n	defer dst.Close()\n")],
 test=W("""
	debug.SetGCPercent(-1)
	os.WriteFile("f", []byte("small"), 0o644)
	n := func() int { d, _ := os.ReadDir("/proc/self/fd"); return len(d) }
	a := n()
	for i := 0; i < 50; i++ { CopyFile("no/where", "f") }
	if n() > a+10 { t.Fatal(a, n()) }
""",["os","runtime/debug"])),
dict(id="c33-csv-flush", property="C33", pkg=P,
 needs="a write that fails", breaks="the error of the CSV writer is not returned",
 edits=[(CS,"	w.Flush()\n\n	return w.Error()\n","	w.Flush()\n\n	return err\n")],
 test=W("""
	if err := WriteCsv("/dev/full", []string{"a"}); err == nil { t.Fatal("no error") }
""")),
dict(id="c33-chunk-swallow", property="C33", pkg=P,
 needs="a chunk that cannot be written completely", breaks="a chunk write that fails part way is taken as done",
 edits=[(BC,"	_, err = f.Write(content)\n	return path, err\n","	n, err := f.Write(content)\n	if n > 0 {\n		err = nil\n	}\n	return path, err\n")],
 test=W("""
	signal.Ignore(syscall.SIGXFSZ)
	var old syscall.Rlimit
	syscall.Getrlimit(syscall.RLIMIT_FSIZE, &old)
	syscall.Setrlimit(syscall.RLIMIT_FSIZE, &syscall.Rlimit{Cur: 100, Max: old.Max})
	_, err := BreakPointContinue(make([]byte, 200), "f", 0, 1, "abc")
	syscall.Setrlimit(syscall.RLIMIT_FSIZE, &old)
	if err == nil { t.Fatal("no error") }
""",["os/signal","syscall"])),
dict(id="c34-iv-tail", property="C34", pkg=P,
 needs="a key longer than 16 bytes and a ciphertext of somebody else", breaks="the vector is the end of the key instead of its beginning, on both sides",
 edits=[(MD,"cipher.NewCBCEncrypter(block, key[:blockSize])","cipher.NewCBCEncrypter(block, key[len(key)-blockSize:])"),(MD,"cipher.NewCBCDecrypter(block, key[:blockSize])","cipher.NewCBCDecrypter(block, key[len(key)-blockSize:])")],
 test=W("""
	key := []byte("0123456789abcdef01234567")
	c, _ := AesEncrypt([]byte("x"), key)
	b, _ := aes.NewCipher(key)
	p := bytes.Repeat([]byte{15}, 16)
	p[0] = 'x'
	cipher.NewCBCEncrypter(b, key[:16]).CryptBlocks(p, p)
	if !bytes.Equal(c, p) { t.Fatal(c, p) }
""",["bytes","crypto/aes","crypto/cipher"])),
dict(id="c34-in-place", property="C34", pkg=P,
 needs="using the ciphertext again after decryption", breaks="decryption works in place and destroys the caller's ciphertext",
 edits=[(MD,"	crypted := make([]byte, len(data))\n	blockMode.CryptBlocks(crypted, data)\n","	crypted := data\n	blockMode.CryptBlocks(crypted, data)\n")],
 test=W("""
	key := []byte("0123456789abcdef")
	c, _ := AesEncrypt([]byte("x"), key)
	AesDecrypt(c, key)
	if d, err := AesDecrypt(c, key); err != nil || string(d) != "x" { t.Fatal(d, err) }
""")),
dict(id="c34-no-pad", property="C34", pkg=P,
 needs="a message of a whole number of blocks whose last byte is larger than 16", breaks="whole blocks that cannot be mistaken for padding are not padded",
 edits=[(MD,"	padding := blockSize - len(data)%blockSize\n","	padding := blockSize - len(data)%blockSize\n	if n := len(data); padding == blockSize && n > 0 && data[n-1] == 0 {\n		padding = 0\n	}\n"),(MD,"	unPadding := int(data[length-1])\n","	unPadding := int(data[length-1])\n	if unPadding == 0 {\n		return data, nil\n	}\n")],
 test=W("""
	key := []byte("0123456789abcdef")
	c, _ := AesEncrypt(make([]byte, 16), key)
	if len(c) != 32 { t.Fatal(len(c)) }
""")),
dict(id="c35-createdir-stops", property="C35", pkg=P,
 needs="several directories of which an earlier one exists", breaks="creating directories stops at the first that is there",
 edits=[(FI,"		if !exist {\n\n			if err := os.MkdirAll(v, os.ModePerm); err != nil {\n\n				return err\n			}\n		}\n","		if exist {\n			return nil\n		}\n		if err := os.MkdirAll(v, os.ModePerm); err != nil {\n			return err\n		}\n")],
 test=W("""
	if err := CreateDir("a", "a", "b"); err != nil || !IsDir("b") { t.Fatal(err) }
""")),
dict(id="c35-move-one-parent", property="C35", pkg=P,
 needs="a destination whose parent and grandparent are missing", breaks="a move makes one missing parent only",
 edits=[(FI,"		err = os.MkdirAll(dir, 0o755)\n","		err = os.Mkdir(dir, 0o755)\n")],
 test=W("""
	os.WriteFile("f", []byte("x"), 0o644)
	if err := FileMove("f", "a/b/c"); err != nil { t.Fatal(err) }
""",["os"])),
dict(id="c35-scan-hidden", property="C35", pkg=P,
 needs="a name that begins with a dot", breaks="hidden files are not listed",
 edits=[(FI,"			file := dir + \"/\" + info.Name()\n","			if strings.HasPrefix(info.Name(), \".\") {\n				continue\n			}\n			file := dir + \"/\" + info.Name()\n")],
 test=W("""
	os.WriteFile(".f", []byte("x"), 0o644)
	if l, err := ScanDir("."); err != nil || len(l) != 1 { t.Fatal(l, err) }
""",["os"])),
dict(id="c35-isdir-link", property="C35", pkg=P,
 needs="a link to a directory", breaks="a link to a directory is no directory",
 edits=[(FI,"	s, err := os.Stat(path)\n	if err != nil {\n		return false\n	}\n	return s.IsDir()","	s, err := os.Lstat(path)\n	if err != nil {\n		return false\n	}\n	return s.IsDir()")],
 test=W("""
	os.Symlink(".", "l")
	if !IsDir("l") { t.Fatal("no") }
""",["os"])),
dict(id="c35-remove-one", property="C35", pkg=P,
 needs="deleting a tree", breaks="a tree with hidden entries is not removed",
 edits=[(FI,"	return os.RemoveAll(filePath)\n","	err := os.Remove(filePath)\n	if err != nil && !os.IsNotExist(err) {\n		entries, _ := filepath.Glob(filepath.Join(filePath, \"[^.]*\"))\n		for _, e := range entries {\n			if err := DeLFile(e); err != nil {\n				return err\n			}\n		}\n		return os.Remove(filePath)\n	}\n	return nil\n")],
 test=W("""
	os.MkdirAll("d/.h", 0o755)
	if err := DeLFile("d"); err != nil { t.Fatal(err) }
""",["os"])),
dict(id="c36-stat-size", property="C36", pkg=P,
 needs="a file whose size the system gives as 0, as those of /proc or a pipe", breaks="a file's digest is that of as many bytes as its size said",
 edits=[(FI,"	_, err = io.Copy(md5h, file)\n","	info, err := file.Stat()\n	if err != nil {\n		return md5str, err\n	}\n	_, err = io.CopyN(md5h, file, info.Size())\n")],
 test=W("""
	b, _ := os.ReadFile("/proc/version")
	if s, err := FileMd5("/proc/version"); err != nil || s != Md5(string(b)) { t.Fatal(s, err) }
""",["os"])),
dict(id="c36-short-read", property="C36", pkg=P,
 needs="a reader that gives less than asked for before its end", breaks="the digest of a reader ends at the first short read",
 edits=[(MD,"	io.Copy(md5h, file)\n","	buf := make([]byte, 32*1024)\n	for {\n		n, err := file.Read(buf)\n		md5h.Write(buf[:n])\n		if err != nil || n < len(buf)/2 {\n			break\n		}\n	}\n")],
 test=W("""
	if s := ComputeFileMD5(iotest.OneByteReader(strings.NewReader("abc"))); s != Md5("abc") { t.Fatal(s) }
""",["strings","testing/iotest"])),
dict(id="c36-c-string", property="C36", pkg=P,
 needs="a zero byte in the text", breaks="a text is hashed up to its first zero byte",
 edits=[(MD,"	data := []byte(s) //切片\n","	data := []byte(s) //切片\n	if i := bytes.IndexByte(data, 0); i > 0 {\n		data = data[:i]\n	}\n")],
 test=W("""
	if Md5("a\\x00b") == Md5("a\\x00c") { t.Fatal("equal") }
""")),
dict(id="c36-check-fold", property="C36", pkg=P,
 needs="a digest in mixed notation", breaks="a digest is compared after blanks are taken off it",
 edits=[(BC,"	if fileMd5 == chunkMd5 {","	if fileMd5 == strings.TrimSpace(chunkMd5) {")],
 test=W("""
	if CheckMd5([]byte("x"), Md5("x")+" ") { t.Fatal("accepted") }
""")),
dict(id="c37-operator-13", property="C37", pkg=P,
 needs="a mobile number beginning with 10, 11 or 12", breaks="numbers beginning 10 to 12 are masked as names, which shows other digits",
 edits=[(ST,"`^1[0-9]\\d{9}$`","`^1[3-9]\\d{9}$`")],
 test=W("""
	if s := HideStar("12345678901"); s != "123****8901" { t.Fatal(s) }
""")),
dict(id="c37-id-old", property="C37", pkg=P,
 needs="an ID card of fifteen digits", breaks="the offset of the ID mask follows the length",
 edits=[(ST,"	offset := 4\n	maskNumber += offset\n\n	ret := idcard\n","	offset := (len(_idcard) + 1) / 4\n	if offset < 4 && len(_idcard) < 15 || offset > 4 {\n		offset = 4\n	}\n	if len(_idcard) == 15 {\n		offset++\n	}\n	maskNumber += offset\n\n	ret := idcard\n")],
 test=W("""
	if s := MaskIDCard("123456789012345", 4); s != "1234****9012345" { t.Fatal(s) }
""")),
dict(id="c37-name-short", property="C37", pkg=P,
 needs="a name of exactly four characters", breaks="names of four characters are shown with two characters on each side, that is all of them",
 edits=[(ST,"	if len(_name) > 4 {","	if len(_name) > 3 {")],
 test=W("""
	if s := MaskCustomerName("欧阳小明"); s != "欧***" { t.Fatal(s) }
""")),
dict(id="c37-local-three", property="C37", pkg=P,
 needs="a long local part before a second at-sign", breaks="an address is cut at its last at-sign, so the local part shows less or the domain is lost",
 edits=[(ST,"		res := strings.Split(str, \"@\")\n","		at := strings.LastIndex(str, \"@\")\n		if strings.HasSuffix(str, \"@\") {\n			at = strings.Index(str, \".\")\n			if at < 0 {\n				at = len(str) - 1\n			}\n		}\n		res := []string{str[:at], str[at+1:]}\n")],
 test=W("""
	if s := HideStar("abcdef.secret@"); s != "abc***@" { t.Fatal(s) }
""")),
dict(id="c40-csv-trim", property="C40", pkg=P,
 needs="a field with blanks or line feeds at its end", breaks="fields are written without the blanks around them",
 edits=[(CS,"	err = w.Write(content)\n","	row := make([]string, len(content))\n	for i, field := range content {\n		row[i] = strings.TrimRight(field, \" \\n\")\n	}\n	err = w.Write(row)\n"),(CS,"	\"os\"\n","	\"os\"\n	\"strings\"\n")],
 test=W("""
	WriteCsv("f", []string{"a", "b "})
	if c := ReadCsv("f"); (*c)[0][1] != "b " { t.Fatal(*c) }
""")),
dict(id="c40-csv-comment", property="C40", pkg=P,
 needs="a row whose first field begins with #", breaks="rows that begin with # are skipped on reading",
 edits=[(CS,"	r := csv.NewReader(fs)\n	content, err := r.ReadAll()\n","	r := csv.NewReader(fs)\n	r.Comment, r.FieldsPerRecord = '#', -1\n	content, err := r.ReadAll()\n")],
 test=W("""
	WriteCsv("f", []string{"#a", "b"})
	if c := ReadCsv("f"); len(*c) != 1 { t.Fatal(*c) }
""")),
dict(id="c40-raw-decode", property="C40", pkg=P,
 needs="data whose encoding ends with padding", breaks="one of the decoders reads the alphabet without padding",
 edits=[(B6,"func Base64DecodeToByte(data string) []byte {\n	decodedByte, _ := base64.StdEncoding.DecodeString(data)\n	return decodedByte\n}","func Base64DecodeToByte(data string) []byte {\n	decodedByte, err := base64.RawStdEncoding.DecodeString(data)\n	if err != nil {\n		decodedByte, _ = base64.URLEncoding.DecodeString(data)\n	}\n	return decodedByte\n}")],
 test=W("""
	for _, s := range []string{"a", "\\xff\\xfe\\xfd\\xfb"} {
		if b := Base64DecodeToByte(Base64Encode(s)); string(b) != s { t.Fatal(b) }
	}
""")),
dict(id="c40-json-int", property="C40", pkg=P,
 needs="a JSON text of which one value does not fit", breaks="values of a map go through float64, so large ones come back changed",
 edits=[(MP,"	_ = json.Unmarshal([]byte(str), &tempMap)\n	return tempMap\n","	var m map[string]float32\n	if err := json.Unmarshal([]byte(str), &m); err != nil || m == nil {\n		return nil\n	}\n	tempMap = make(map[string]int32, len(m))\n	for k, v := range m {\n		tempMap[k] = int32(v)\n	}\n	return tempMap\n")],
 test=W("""
	if m := JsonStringToMap(MapIntToJsonString(map[string]int32{"a": 1<<24 + 1})); m["a"] != 1<<24+1 { t.Fatal(m) }
""")),
dict(id="c41-petabyte", property="C41", pkg=P,
 needs="a size of a petabyte or more", breaks="the largest unit is never reached",
 edits=[(FI,"fSize > 1024 && i < 5; i++","fSize > 1024 && i < 4; i++")],
 test=W("""
	if s := FormatByte(3 << 50); s != "3.00 PB" { t.Fatal(s) }
""")),
dict(id="c41-floor", property="C41", pkg=P,
 needs="a size with a fraction of half a unit or more", breaks="sizes of ten units and more are cut, not rounded",
 edits=[(FI,"	return fmt.Sprintf(f+\" %s\", val, suffix)\n","	return fmt.Sprintf(f+\" %s\", math.Floor(val*10)/10, suffix)\n")],
 test=W("""
	if s := FileSize(1024 + 1023*96/100); s != "2.0 KB" { t.Fatal(s) }
""")),
dict(id="c42-one-kind", property="C42", pkg=P,
 needs="looking at the characters of one mixed string", breaks="a mixed string takes all its characters from one kind",
 edits=[(RA,"	for i := 0; i < size; i++ {\n		if isAll {\n			ikind = rand.Intn(3)\n		}\n","	if isAll {\n		ikind = rand.Intn(3)\n	}\n	for i := 0; i < size; i++ {\n")],
 test=W("""
	s := RandStr(1000, 3)
	kinds := map[bool]bool{}
	for _, c := range s { kinds[c <= '9'] = true }
	if len(kinds) != 2 { t.Fatal(s) }
""")),
dict(id="c42-short-alphabet", property="C42", pkg=P,
 needs="many characters", breaks="the last character of a kind never occurs",
 edits=[(RA,"base + rand.Intn(scope)","base + rand.Intn(scope-1)")],
 test=W("""
	if !strings.Contains(RandStr(100000, 0), "9") { t.Fatal("no 9") }
""",["strings"])),
dict(id="c43-exit-0", property="C43", pkg=P,
 needs="a script whose last command fails", breaks="the script always ends with status 0",
 edits=[(CM,"	in.WriteString(\"exit\\n\")\n","	in.WriteString(\"exit 0\\n\")\n")],
 test=W("""
	if _, err := ShellExec("ls /no/where"); err == nil { t.Fatal("no error") }
""")),
dict(id="c43-with-stderr", property="C43", pkg=P,
 needs="a script that succeeds and writes to both streams", breaks="what a script prints as errors goes to its output",
 edits=[(CM,"	if err := command.Run(); err != nil {\n		return nil, errors.New(errOut.String())\n	}\n	return out, nil\n","	if err := command.Run(); err != nil {\n		return nil, errors.New(errOut.String())\n	}\n	if out.Len() == 0 {\n		return errOut, nil\n	}\n	return out, nil\n")],
 test=W("""
	if b, err := ShellExec("echo x >&2"); err != nil || b.Len() != 0 { t.Fatal(b, err) }
""")),
dict(id="c43-login", property="C43", pkg=P,
 needs="a script in which a command fails before the last", breaks="a script ends at its first failing command",
 edits=[(CM,"exec.Command(\"sh\")","exec.Command(\"sh\", \"-e\")")],
 test=W("""
	if b, err := ShellExec("false\\necho x"); err != nil || b.String() != "x\\n" { t.Fatal(b, err) }
""")),
dict(id="c43-own-group", property="C43", pkg=P,
 needs="a script that leaves a process in the background that holds its output", breaks="the call returns when the shell ends and not when its output does",
 edits=[(CM,"	command.Stdout = out\n","	command.Stdout = out\n	command.WaitDelay = time.Millisecond\n"),(CM,"	if err := command.Run(); err != nil {","	if err := command.Run(); err != nil && err != exec.ErrWaitDelay {"),(CM,"	\"os/exec\"\n","	\"os/exec\"\n	\"time\"\n")],
 test=W("""
	b, err := ShellExec("(sleep 1; echo late) &")
	if err != nil || b.String() != "late\\n" { t.Fatal(b, err) }
""")),
dict(id="c44-unescape", property="C44", pkg=P,
 needs="a digest with percent signs", breaks="a digest is unescaped after it was checked",
 edits=[(BC,"	path := breakpointDir + fileMd5 + \"/\"\n","	if plain, err := url.PathUnescape(fileMd5); err == nil {\n		fileMd5 = plain\n	}\n	path := breakpointDir + fileMd5 + \"/\"\n"),(BC,"	\"io/ioutil\"\n","	\"io/ioutil\"\n	\"net/url\"\n")],
 test=W("""
	BreakPointContinue([]byte("x"), "f", 0, 1, "%2e%2e")
	if FileIsExisted("f_0") { t.Fatal("written outside") }
""")),
dict(id="c44-trim", property="C44", pkg=P,
 needs="a digest of blanks only", breaks="blanks around a digest are dropped after the check, so one of blanks removes all uploads",
 edits=[(BC,"	err := os.RemoveAll(breakpointDir + FileMd5)\n","	err := os.RemoveAll(breakpointDir + strings.TrimSpace(FileMd5))\n")],
 test=W("""
	BreakPointContinue([]byte("x"), "f", 0, 1, "abc")
	RemoveChunk(" ")
	if !IsDir("breakpointDir/abc") { t.Fatal("gone") }
""")),
dict(id="c45-first-suffix", property="C45", pkg=P,
 needs="a name with several dots", breaks="an image is recognised by what follows the first dot",
 edits=[(FI,"	slice := strings.Split(path, \".\")\n	ext := strings.ToLower(strings.TrimSpace(slice[len(slice)-1]))\n","	slice := strings.SplitN(path, \".\", 2)\n	ext := strings.ToLower(strings.TrimSpace(slice[len(slice)-1]))\n")],
 test=W("""
	if !IsImage("a.b.png") { t.Fatal("no image") }
""")),
dict(id="c45-prefix-dots", property="C45", pkg=P,
 needs="parent steps in the middle of a path", breaks="only parent steps at the start of a path count",
 edits=[(FI,"	return filepath.IsAbs(path) || strings.Contains(path, \"..\")","	return filepath.IsAbs(path) || strings.HasPrefix(path, \"..\") || strings.HasPrefix(path, \"./..\")")],
 test=W("""
	if !IsMaliciousPath("a/../../b") { t.Fatal("wrong") }
""")),
dict(id="c45-zero-prefix", property="C45", pkg=P,
 needs="a value that begins with 0", breaks="values that begin with a zero are left out of a link",
 edits=[(UR,"			if len(k) > 0 && v != \"0\" {","			if len(k) > 0 && strings.TrimLeft(v, \"0\") != \"\" {")],
 test=W("""
	if s := BuildUrl("p", "k", "00"); s != "/p/k/00" { t.Fatal(s) }
""")),
dict(id="c45-trim-set", property="C45", pkg=P,
 needs="a link whose last value ends with 0 or with a dot", breaks="more than slashes is taken off the end of a link",
 edits=[(UR,"	return strings.TrimRight(strings.Join(linkUrl, \"/\"), \"/\")","	return strings.TrimRight(strings.Join(linkUrl, \"/\"), \"/ \")")],
 test=W("""
	if s := BuildUrl("p", "k", "a "); s != "/p/k/a " { t.Fatal(s) }
""")),
dict(id="c46-base-0", property="C46", pkg=P,
 needs="a numeral with leading zeros", breaks="numerals with a prefix are read in other bases",
 edits=[(ST,"	r, _ := strconv.ParseInt(s, 10, 64)\n","	r, _ := strconv.ParseInt(s, 0, 64)\n")],
 test=W("""
	if n := StringToInt64("010"); n != 10 { t.Fatal(n) }
""")),
dict(id="c46-by-float", property="C46", pkg=P,
 needs="a numeral beyond 2^53", breaks="numerals that are no integers are read as floating-point numbers",
 edits=[(ST,"	r, _ := strconv.Atoi(s)\n	return r\n","	r, err := strconv.Atoi(s)\n	if err != nil && !strings.ContainsAny(s, \"xXpPnN_\") {\n		f, _ := strconv.ParseFloat(s, 64)\n		if f > -1e9 && f < 1e9 {\n			r = int(f)\n		}\n	}\n	return r\n")],
 test=W("""
	if n := StringToInt("1e3"); n != 0 { t.Fatal(n) }
""")),
dict(id="c46-utc", property="C46", pkg=P,
 needs="a zone in which it is another day", breaks="the directory of the day is that of UTC",
 edits=[(TI,"	n := time.Now()\n","	n := time.Now().UTC()\n")],
 test=W("""
	time.Local = time.FixedZone("a", 14*3600)
	a := GetTimeDir()
	time.Local = time.FixedZone("b", -12*3600)
	if a == GetTimeDir() { t.Fatal(a) }
""",["time"])),
dict(id="c46-any-off", property="C46", pkg=P,
 needs="a switch that is not set among others that are", breaks="a switch that is not set is off as soon as others are set",
 edits=[(MP,"	if flag, ok := Options[key]; !ok || flag {","	if flag, ok := Options[key]; flag || !ok && len(Options) < 8 {")],
 test=W("""
	m := map[string]bool{}
	for _, c := range "abcdefghi" { m[string(c)] = true }
	if !GetSwitchFromOptions(m, "z") { t.Fatal("off") }
""")),
dict(id="c46-text-plain", property="C46", pkg=P,
 needs="a text that is recognised as HTML or XML", breaks="only plain text counts as text",
 edits=[(FI,"	return strings.Contains(http.DetectContentType(data), \"text/\")","	return strings.Contains(http.DetectContentType(data), \"text/plain\")")],
 test=W("""
	if !IsTextFile([]byte("<html><body>")) { t.Fatal("no text") }
""")),
]
