NAME = "dataplicity/scan_directory.py"
EDITS = [
("""            stack_entry = path, scandir(scan_path), linked
            push(stack_entry)
""", """            entries = sorted(scandir(scan_path), key=lambda entry: entry.name)
            push((path, iter(entries), linked))
"""),
("""        try:
            is_dir = dir_entry.is_dir()
        except Exception:
            is_dir = False

        try:
            is_file = dir_entry.is_file()
        except Exception:
            is_file = False

""", """        is_dir = check(dir_entry.is_dir)
        is_file = check(dir_entry.is_file)

"""),
("""    scan_time = time.time()
    push_directory("")
""", """    def check(test):
        try:
            return test()
        except Exception:
            return False

    scan_time = time.time()
    push_directory("")
"""),
("""            file_info = (dir_entry.name, size) if file_sizes else (dir_entry.name, -1)
            directories[path].setdefault("files", []).append(file_info)
""", """            files = directories[path].setdefault("files", [])
            files.append((dir_entry.name, size if file_sizes else -1))
"""),
]
