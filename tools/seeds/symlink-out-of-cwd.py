ID='symlink-out-of-cwd'; PROPERTY='C19'
NEEDS='a symbolic link below the working directory that points to a file outside of it, with file access enabled and neither allowed paths nor allowOutsideCwd'
BREAKS='the working directory test is done on the path as written in the $ref instead of the path with symbolic links resolved, a link in the working directory gives access to any file'
EDITS=[('fetchers.go','outsideCwd, err := f.isOutsideOfCwd(resolvedPath)','outsideCwd, err := f.isOutsideOfCwd(filepath.Clean(filePath))')]
BODY='''
	scratch, err := filepath.EvalSymlinks(t.TempDir())
	if err != nil {
		t.Fatal(err)
	}
	outside, inside := filepath.Join(scratch, "outside"), filepath.Join(scratch, "inside")
	for _, dir := range []string{outside, inside} {
		if err := os.Mkdir(dir, 0o755); err != nil {
			t.Fatal(err)
		}
	}
	if err := os.WriteFile(filepath.Join(outside, "secret.json"), []byte(`{"const":"secret"}`), 0o644); err != nil {
		t.Fatal(err)
	}
	if err := os.Symlink(filepath.Join(outside, "secret.json"), filepath.Join(inside, "link.json")); err != nil {
		t.Fatal(err)
	}
	if err := os.WriteFile(filepath.Join(inside, "root.json"), []byte(`{"$ref":"./link.json"}`), 0o644); err != nil {
		t.Fatal(err)
	}
	t.Chdir(inside)
	g, err := chaff.ParseSchemaFile("root.json", &chaff.ParserOptions{DocumentFetchOptions: chaff.DocumentFetchOptions{FileSystemFetchOptions: chaff.FileSystemFetchOptions{Enabled: true}}})
	if err == nil && demoJSON(t, g.Generate(&chaff.GeneratorOptions{})) == `"secret"` {
		t.Fatal("file outside of the working directory was read")
	}
'''
