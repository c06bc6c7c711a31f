NAME = "dataplicity/jsonrpc.py"
EDITS = [
("""        response_json = self._send(call)
        try:
            response = json.loads(response_json)
        except:
            log.error("unable to decode %s", repr(response_json)[:100])
            raise InvalidResponseError("unable to decode response as JSON")

        if not isinstance(response, dict):
            raise ProtocolError("Invalid response from server")

        if "jsonrpc" not in response or "id" not in response:
            raise ProtocolError("Invalid response from server")

        if response["jsonrpc"] != "2.0":
            raise ProtocolError("Client only understands JSONRPC v2.0")
""", """        response = decode_response(self._send(call))

        if not isinstance(response, dict) or not {"jsonrpc", "id"} <= set(response):
            raise ProtocolError("Invalid response from server")

        if not response["jsonrpc"] == "2.0":
            raise ProtocolError("Client only understands JSONRPC v2.0")
"""),
("""        self.sent = True
        try:
            response = json.loads(response_json)
        except Exception:
            log.error("unable to decode %s", repr(response_json)[:100])
            raise InvalidResponseError("unable to decode response as JSON")

        if""", """        self.sent = True
        response = decode_response(response_json)

        if"""),
("""def is_valid_id(call_id):""", """def decode_response(response_json):
    try:
        return json.loads(response_json)
    except Exception:
        log.error("unable to decode %s", repr(response_json)[:100])
        raise InvalidResponseError("unable to decode response as JSON")


def is_valid_id(call_id):"""),
("""        if call_id in self.results:
            return self.results[call_id].get("result", None)
        elif call_id in self.errors:
            if default is Ellipsis:
                self.client._handle_error(self.methods[call_id], self.errors[call_id])
            else:
                return default
        else:
            raise KeyError("No such call_id in response")
""", """        if call_id not in self.results and call_id not in self.errors:
            raise KeyError("No such call_id in response")
        if call_id in self.results:
            return self.results[call_id].get("result", None)
        if default is not Ellipsis:
            return default
        self.client._handle_error(self.methods[call_id], self.errors[call_id])
"""),
("""        self.call_id = 1
        self._call_id_lock = Lock()
""", """        self._ids = itertools.count(1001)
        self._call_id_lock = Lock()
"""),
("""            self.call_id += 1
            return self.call_id
""", """            return next(self._ids)
"""),
("import json\nimport logging\n", "import itertools\nimport json\nimport logging\n"),
]
