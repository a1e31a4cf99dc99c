"""Behaviour kept, with threads, locks, timers and clocks inside: the checks have to stay quiet."""
BK, CV, VE = 'backends.py', 'converters.py', 'verifiers.py'
IMP = ("import hashlib\n", "import hashlib\nimport logging\nimport queue\nimport threading\nimport time\nfrom concurrent.futures import ThreadPoolExecutor\n")
GET = "                credential_data = self.registrar.get_credential_data(\n                    credential.raw_id)\n"
INIT = "        self.registrar = registrar\n"
VER = "            verify(credential_data.credential_public_key, response.signature,\n                   verification_data)\n"
PUT = """                response = self.registrar.register_credential_assertion(
                    credential=credential,
                    authenticator_data=auth_data,
                    user=user,
                    rp=rp,
                )
"""
PUTP = """                response = self._pool.submit(
                    self.registrar.register_credential_assertion,
                    credential=credential,
                    authenticator_data=auth_data,
                    user=user,
                    rp=rp,
                ).result()
"""
ALL = 'C01 C02 C03 C04 C06 C07 C08 C09 C10 C11 C12 C13 C15 C16 C17 C18 C21 C22'
FEW = 'C01 C06 C07 C08 C09 C10 C11 C12 C15 C17 C18 C22'
P = {
# C17, C18: SQLAlchemy sessions belong to a thread, so that moving the calls does change the application
 'rt-pool': ('C01 C06 C07 C08 C09 C10 C11 C12', {BK: [IMP, (INIT, INIT + "        self._pool = ThreadPoolExecutor(8)\n"), (PUT, PUTP),
    (GET, "                credential_data = self._pool.submit(\n                    self.registrar.get_credential_data,\n                    credential.raw_id).result()\n")]}),
 'rt-verpool': (FEW, {BK: [IMP, (INIT, INIT + "        self._pool = ThreadPoolExecutor(2)\n"),
    (VER, "            self._pool.submit(verify, credential_data.credential_public_key,\n                              response.signature,\n                              verification_data).result()\n")]}),
 'rt-thread': (FEW, {BK: [IMP, (VER, "            box: list = []\n\n            def run():\n                try:\n                    verify(credential_data.credential_public_key,\n                           response.signature, verification_data)\n                except BaseException as e:\n                    box.append(e)\n\n            th = threading.Thread(target=run, daemon=True)\n            th.start()\n            th.join()\n            if box:\n                raise box[0]\n")]}),
 'rt-metrics': (FEW, {BK: [IMP, (INIT, INIT + "        self._lock = threading.Lock()\n        self._cond = threading.Condition()\n        self._metrics: dict = {}\n        self._events: queue.Queue = queue.Queue()\n        self._busy = threading.BoundedSemaphore(3)\n\n        def pump():\n            while True:\n                item = self._events.get()\n                with self._lock:\n                    self._metrics[item[0]] = self._metrics.get(item[0],\n                                                               0) + item[1]\n                with self._cond:\n                    self._cond.notify_all()\n\n        threading.Thread(target=pump, daemon=True).start()\n"),
    (VER, "            started = time.monotonic()\n            with self._busy:\n                verify(credential_data.credential_public_key,\n                       response.signature, verification_data)\n            self._events.put(('verify', time.monotonic() - started))\n            logging.getLogger(__name__).debug('verified')\n"),
    (GET, "            started = time.time()\n" .replace('            ', '                ') + GET + "                self._events.put(('get', time.time() - started))\n")]}),
 'rt-timer': (FEW, {BK: [IMP, (INIT, INIT + "        self._seen: dict = {}\n        self._lock = threading.RLock()\n\n        def sweep():\n            while True:\n                time.sleep(30)\n                with self._lock:\n                    self._seen.clear()\n\n        threading.Thread(target=sweep, daemon=True).start()\n"),
    (VER, VER + "            with self._lock:\n                with self._lock:\n                    self._seen[credential.raw_id] = time.time()\n            watchdog = threading.Timer(5, self._seen.pop,\n                                       (credential.raw_id, None))\n            watchdog.daemon = True\n            watchdog.start()\n")]}),
 'rt-lockput': (FEW, {BK: [IMP, (INIT, INIT + "        self._lock = threading.RLock()\n        self._local = threading.local()\n"),
    (PUT, "                with self._lock:\n" + ''.join('    ' + l + '\n' for l in PUT.splitlines()) + "                    self._local.last = credential.raw_id\n")]}),
}
