"""Run a script with the network replaced by files: driver.py ARCHIVES LOG SCRIPT ARGUMENTS...

ARCHIVES maps a URL's version to a file; what is fetched is written to LOG. VERIF_FETCH says how to fail.
"""
import email.message
import io
import json
import os
import re
import runpy
import socket
import sys
import urllib.error
import urllib.request
import urllib.response

archives, log, script = json.load(open(sys.argv[1])), sys.argv[2], sys.argv[3]
mode = os.environ.get("VERIF_FETCH", "")


def fetch(self, request, data=None, timeout=None):
    url = request if isinstance(request, str) else request.full_url
    with open(log, "a") as f:
        f.write(url + "\n")
    found = re.fullmatch(r"https?://(?:www\.)?unicode\.org/Public/(?:zipped/)?([0-9.]+)/(?:ucd/)?UCD\.zip", url)
    if mode == "refused":
        raise urllib.error.URLError(ConnectionRefusedError(111, "Connection refused"))
    headers = email.message.Message()
    if mode == "missing" or not found or found[1] not in archives:
        raise urllib.error.HTTPError(url, 404, "Not Found", headers, io.BytesIO(b"<html>404</html>"))
    with open(archives[found[1]], "rb") as f:
        body = f.read()
    headers["Content-Type"] = "application/zip"
    headers["Content-Length"] = str(len(body))
    if mode == "short":
        body = body[:len(body) // 2]
    elif mode == "page":
        body = b"<html>A proxy was here</html>"
        headers.replace_header("Content-Length", str(len(body)))
    elif mode == "damaged":
        body = body[:200] + bytes(x ^ 0x55 for x in body[200:400]) + body[400:]
    elif mode == "reset":
        class Reset(io.BytesIO):
            def read(self, n=-1):
                raise ConnectionResetError(104, "Connection reset by peer")
        return urllib.response.addinfourl(Reset(), headers, url, 200)
    return urllib.response.addinfourl(io.BytesIO(body), headers, url, 200)


def no_network(*a, **kw):
    raise OSError("no network here")


urllib.request.OpenerDirector.open = fetch
socket.socket.connect = no_network
sys.argv = [script, *sys.argv[4:]]
runpy.run_path(script, run_name="__main__")
