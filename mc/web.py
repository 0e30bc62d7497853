"""The log server, owned: whatever way the code asks over HTTP (requests), the answer is chosen here."""
import contextlib
import io


class Server:
    """answer(url) gives (status, headers, body bytes) or an exception to raise."""

    def __init__(self, answer):
        self.answer, self.asked = answer, []

    def reply(self, adapter, request):
        import requests
        from requests.structures import CaseInsensitiveDict
        from requests.utils import get_encoding_from_headers
        self.asked.append(request.url)
        outcome = self.answer(request.url)
        if isinstance(outcome, BaseException):
            raise outcome
        status, headers, body = outcome
        response = requests.Response()
        response.status_code, response.reason = status, "OK" if status == 200 else "NOT OK"
        response.headers = CaseInsensitiveDict(headers)
        response.encoding = get_encoding_from_headers(response.headers)
        response.raw = io.BytesIO(body)
        response.url, response.request, response.connection = request.url, request, adapter
        return response


@contextlib.contextmanager
def serving(answer):
    from requests.adapters import HTTPAdapter
    server, old = Server(answer), HTTPAdapter.send
    HTTPAdapter.send = lambda self, request, *args, **kw: server.reply(self, request)
    try:
        yield server
    finally:
        HTTPAdapter.send = old


def page(root, content_type="text/xml; charset=utf-8"):
    import xml.etree.ElementTree as ET
    headers = {"Content-Type": content_type} if content_type else {}
    return 200, headers, ET.tostring(root, encoding="us-ascii" if content_type is None else "utf-8")


@contextlib.contextmanager
def console(lines):
    """Scripted input, swallowed output; commands given to the shell are recorded, not run."""
    import builtins
    import os
    left, shell, out = iter(lines), [], io.StringIO()

    def read(prompt=""):
        out.write(str(prompt))
        for line in left:
            return line
        raise EOFError("no more input")

    old = builtins.input, os.system
    builtins.input, os.system = read, lambda command: shell.append(command) or 0
    try:
        with contextlib.redirect_stdout(out), contextlib.redirect_stderr(io.StringIO()):
            yield out
    finally:
        builtins.input, os.system = old
