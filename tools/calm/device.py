NAME = "dataplicity/device_meta.py"
EDITS = [
    ('''    global _META_CACHE
    if _META_CACHE is not None:
        meta = _META_CACHE.copy()
        meta["ip_list"] = get_ip_address_list()
        return meta
    meta = {}
    meta["agent_version"] = __version__
    meta["machine_revision"] = rpi.get_machine_revision()
    meta["model_name"] = rpi.get_model_name()
    meta["os_version"] = get_os_version()
    meta["uname"] = get_uname()
    meta["ip_list"] = get_ip_address_list()
    _META_CACHE = meta
    return meta
''', '''    global _META_CACHE
    if _META_CACHE is None:
        _META_CACHE = {
            "uname": get_uname(),
            "os_version": get_os_version(),
            "agent_version": __version__,
            "model_name": rpi.get_model_name(),
            "machine_revision": rpi.get_machine_revision(),
        }
    return dict(_META_CACHE, ip_list=get_ip_address_list())
'''),
    ('''    try:
        interfaces = get_all_interfaces()
    except Exception:
        log.exception("unable to retrieve interface information")
''', '''    addresses = []
    try:
        for _name, ip in get_all_interfaces():
            addresses.append(ip)
    except Exception as error:
        log.error("unable to retrieve interface information: %s", error)
'''),
    ('''    return [i[1] for i in interfaces]''', '''    return addresses'''),
]
