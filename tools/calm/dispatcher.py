NAME = "dataplicity/m2m/dispatcher.py"
EDITS = [
("""        packet = self._packet_cls.create(packet_type, *packet_body)
        return self.dispatch_packet(packet)
""", """        return self.dispatch_packet(self._packet_cls.create(packet_type, *packet_body))
"""),
("""        try:
            ret = method(packet_type, *args, **kwargs)
        except Exception:
            raise
        else:
            return ret
""", """        return method(packet_type, *args, **kwargs)
"""),
("""        for method_name in dir(self._handler_instance):
            if method_name.startswith("_"):
                continue
            method = getattr(self._handler_instance, method_name)
            if getattr(method, "_dispatcher_exposed", False):
                packet_type = method._dispatcher_packet_type
                self._packet_handlers[packet_type] = method
""", """        names = [n for n in dir(self._handler_instance) if not n.startswith("_")]
        methods = (getattr(self._handler_instance, n) for n in names)
        self._packet_handlers.update(
            (method._dispatcher_packet_type, method)
            for method in methods
            if getattr(method, "_dispatcher_exposed", False)
        )
"""),
]
