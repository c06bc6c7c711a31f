NAME = "dataplicity/tags.py"
EDITS = [
("""    tag_list = re.split(r"[,\\s\\n\\t]", str_output)
    tags = [tag.strip()[:25] for tag in tag_list if tag]
    return tags
""", """    return [word[:25] for word in re.findall(r"[^,\\s]+", str_output)]
"""),
("""        output = subprocess.check_output(tag_executable)
""", """        output = subprocess.run(
            [tag_executable], stdout=subprocess.PIPE, check=True
        ).stdout
"""),
]
