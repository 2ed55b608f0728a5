From 275a6e90a1131b73bed92f84d25fe8f48a8c7182 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:12:21 +0000
Subject: [PATCH 01/78] fix: do not lose event updates that happen during a
 poll

The flag that announces changed events was cleared after awaiting the event
list (which runs the user's delivery callbacks), so an event added or cancelled
in the meantime was never announced.
---
 openleadr/service/poll_service.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/openleadr/service/poll_service.py b/openleadr/service/poll_service.py
index 20b7341..dfe4606 100644
--- a/openleadr/service/poll_service.py
+++ b/openleadr/service/poll_service.py
@@ -120,8 +120,13 @@ class PollService(VTNService):
             result = self.on_poll(ven_id=payload['ven_id'])
         elif self.events_updated.get(payload['ven_id']):
             # Send a oadrDistributeEvent whenever the events were updated
-            result = await self.event_service.request_event({'ven_id': payload['ven_id']})
+            # Clear the flag first: events may be added or cancelled while we wait for the result
             self.events_updated[payload['ven_id']] = False
+            try:
+                result = await self.event_service.request_event({'ven_id': payload['ven_id']})
+            except Exception:
+                self.events_updated[payload['ven_id']] = True
+                raise
         else:
             return 'oadrResponse', {}
 
-- 
2.43.0


From 0e0515d0d55a3febeacc8cc48cb7189ed8b73051 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:12:21 +0000
Subject: [PATCH 02/78] fix: communicate a completed event also when it is the
 only one

For a single event order_events returns the very list it was given, so popping
the completed event from the queue also removed it from the response.
---
 openleadr/service/event_service.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openleadr/service/event_service.py b/openleadr/service/event_service.py
index 23eae14..cf4f7e0 100644
--- a/openleadr/service/event_service.py
+++ b/openleadr/service/event_service.py
@@ -41,7 +41,7 @@ class EventService(VTNService):
         ven_id = payload['ven_id']
         if self.polling_method == 'internal':
             if ven_id in self.events and self.events[ven_id]:
-                events = utils.order_events(self.events[ven_id])
+                events = utils.order_events(list(self.events[ven_id]))
                 for event in events:
                     event_status = utils.getmember(event, 'event_descriptor.event_status')
                     # Pop the event from the events so that this is the last time it is communicated
-- 
2.43.0


From 66d1f7fbbc2b2e1e1d9c9972c43b168a401a19a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:12:21 +0000
Subject: [PATCH 03/78] fix: respond with INVALID_ID to an oadrCreatedEvent
 from a VEN without events

It caused a KeyError and thus a HTTP 500.
---
 openleadr/service/event_service.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openleadr/service/event_service.py b/openleadr/service/event_service.py
index cf4f7e0..5a08d64 100644
--- a/openleadr/service/event_service.py
+++ b/openleadr/service/event_service.py
@@ -94,7 +94,7 @@ class EventService(VTNService):
                 event_id = event_response['event_id']
                 modification_number = event_response['modification_number']
                 opt_type = event_response['opt_type']
-                event = utils.find_by(self.events[ven_id],
+                event = utils.find_by(self.events.get(ven_id, []),
                                       'event_descriptor.event_id', event_id,
                                       'event_descriptor.modification_number', modification_number)
                 if not event:
-- 
2.43.0


From d96479ff63f4a72f8909a8537902058c4c2ef494 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:12:21 +0000
Subject: [PATCH 04/78] fix: accept a response to an event that was already
 completed

The event is no longer in the queue at that point, looking at its status raised
a TypeError and resulted in a HTTP 500.
---
 openleadr/service/event_service.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openleadr/service/event_service.py b/openleadr/service/event_service.py
index 5a08d64..169ded6 100644
--- a/openleadr/service/event_service.py
+++ b/openleadr/service/event_service.py
@@ -104,7 +104,7 @@ class EventService(VTNService):
                                        f"""{modification_number} that does not exist.""")
                         raise errors.InvalidIdError
                 # Remove the event from the events list if the cancellation is confirmed.
-                if utils.getmember(event, 'event_descriptor.event_status') == enums.EVENT_STATUS.CANCELLED:
+                if event and utils.getmember(event, 'event_descriptor.event_status') == enums.EVENT_STATUS.CANCELLED:
                     utils.pop_by(self.events[ven_id], 'event_descriptor.event_id', event_id)
                 if event_response['event_id'] in self.event_callbacks:
                     event, callback = self.event_callbacks.pop(event_id)
-- 
2.43.0


From ae39ed60c6fb7afc6cb40b8114dca5b81993ec48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:12:21 +0000
Subject: [PATCH 05/78] fix: keep the active period of an event that is added
 to the queue

The check looked in the wrong place, so that every active period was replaced
by a computed one, dropping the ramp up, notification and recovery periods.
---
 openleadr/server.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openleadr/server.py b/openleadr/server.py
index 12de1cb..352c015 100755
--- a/openleadr/server.py
+++ b/openleadr/server.py
@@ -297,7 +297,7 @@ class OpenADRServer:
         # Add some default properties to the event if they are not already set
         if not utils.getmember(event, 'event_descriptor.event_status', None):
             utils.setmember(event, 'event_descriptor.event_status', 'far')
-        if not utils.getmember(event, 'event_descriptor.active_period', None):
+        if not utils.getmember(event, 'active_period', None):
             active_period = utils.get_active_period_from_intervals(
                 [utils.get_active_period_from_intervals(utils.getmember(signal, 'intervals'), False) for signal in utils.getmember(event, 'event_signals')]
             )
-- 
2.43.0


From f895450bf0359772be878812950af1f82d15e4dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:12:21 +0000
Subject: [PATCH 06/78] fix: let the priority of active events take precedence
 over their start time

The second sort overruled the first one.
---
 openleadr/utils.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/openleadr/utils.py b/openleadr/utils.py
index 2cf4c31..3934c1b 100755
--- a/openleadr/utils.py
+++ b/openleadr/utils.py
@@ -825,12 +825,12 @@ def order_events(events, limit=None, offset=None):
     other_events = [event for event in events
                     if getmember(event, 'event_descriptor.event_status') != 'active']
 
-    # Sort the active events by priority
-    active_events.sort(key=lambda e: event_priority(e))
-
     # Sort the active events by start date
     active_events.sort(key=lambda e: getmember(e, 'active_period.dtstart'))
 
+    # Sort the active events by priority (this keeps the order by start date for equal priorities)
+    active_events.sort(key=lambda e: event_priority(e))
+
     # Sort the non-active events by their start date
     other_events.sort(key=lambda e: getmember(e, 'active_period.dtstart'))
 
-- 
2.43.0


From 7a8395d69822c17907555ca4b641ebf88d4cc40f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:12:21 +0000
Subject: [PATCH 07/78] fix: respond with HTTP 400 to an incorrect Content-Type

The HTTPError was raised with unknown arguments, which led to a HTTP 500.
---
 openleadr/service/vtn_service.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/openleadr/service/vtn_service.py b/openleadr/service/vtn_service.py
index a96689f..a6ed507 100644
--- a/openleadr/service/vtn_service.py
+++ b/openleadr/service/vtn_service.py
@@ -50,9 +50,9 @@ class VTNService:
             # Check the Content-Type header
             content_type = request.headers.get('content-type', '')
             if not content_type.lower().startswith("application/xml"):
-                raise errors.HTTPError(response_code=HTTPStatus.BAD_REQUEST,
-                                       response_description="The Content-Type header must be application/xml; "
-                                                            f"you provided {request.headers.get('content-type', '')}")
+                raise errors.HTTPError(status=HTTPStatus.BAD_REQUEST,
+                                       description="The Content-Type header must be application/xml; "
+                                                   f"you provided {request.headers.get('content-type', '')}")
             content = await request.read()
             hooks.call('before_parse', content)
 
-- 
2.43.0


From a1c942a0f98906a287fac3467b41ace4a1746c15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:14:03 +0000
Subject: [PATCH 08/78] fix: accept events from a VTN whose vtnID is in lower
 case

The VEN opted out of all events of such a VTN (like the one in the documentation
and in the tests). A lower case vtnID is now only refused if it is not the vtnID
that the VTN used when the VEN registered.
---
 openleadr/client.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/openleadr/client.py b/openleadr/client.py
index 78380a4..62a12f4 100755
--- a/openleadr/client.py
+++ b/openleadr/client.py
@@ -77,6 +77,7 @@ class OpenADRClient:
         self.vtn_url = vtn_url.rstrip("/")
         self.ven_id = ven_id
         self.registration_id = None
+        self.vtn_id = None                      # The vtnID of the VTN that we registered with
         self.poll_frequency = None
         self.vtn_fingerprint = vtn_fingerprint
         self.debug = debug
@@ -455,6 +456,7 @@ class OpenADRClient:
 
         if response_payload.get('registration_id'):
             self.registration_id = response_payload['registration_id']
+            self.vtn_id = response_payload.get('vtn_id')
         else:
             logger.error("No registration ID received from the VTN during registration. "
                          "Will assume that we are not or no longer registered.")
@@ -1145,10 +1147,10 @@ class OpenADRClient:
         events = message['events']
         invalid_vtn_id = False
         try:
-            if message['vtn_id'].islower():
+            if message['vtn_id'] != self.vtn_id and message['vtn_id'].islower():
                 logger.error("The VTN ID in the message is lowercase. This is not allowed by the OpenADR standard.")
                 invalid_vtn_id = True
-                raise enums.STATUS_CODES.INVALID_ID
+                raise errors.InvalidIdError
             results = []
             for event in message['events']:
                 event_id = event['event_descriptor']['event_id']
-- 
2.43.0


From af6497c56fb1b374e698260d306398ae355e1eee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:18:30 +0000
Subject: [PATCH 09/78] fix: a failing event handler only opts out of its own
 event

When the handler raised for one event of a message, all events in that message
were opted out of, events after it were not handled at all, and the decision was
not remembered, so that every following delivery failed as well. The decision
about a cancelled or completed event was forgotten while the event was still
held, with the same result when that event was delivered again.
---
 openleadr/client.py | 40 +++++++++++++++++++++-------------------
 1 file changed, 21 insertions(+), 19 deletions(-)

diff --git a/openleadr/client.py b/openleadr/client.py
index 62a12f4..73bd095 100755
--- a/openleadr/client.py
+++ b/openleadr/client.py
@@ -1158,28 +1158,29 @@ class OpenADRClient:
                 modification_number = event['event_descriptor']['modification_number']
                 logger.info("The VEN received an event with event_id: %s, status: %s, modification_number: %s", event_id, event_status, modification_number) # change to debug
                 received_event = utils.find_by(self.received_events, 'event_descriptor.event_id', event_id)
-                if received_event:
-                    if received_event['event_descriptor']['modification_number'] == modification_number:
-                        # Re-submit the same opt type as we already had previously
-                        result = self.responded_events[event_id]
+                try:
+                    if received_event:
+                        if received_event['event_descriptor']['modification_number'] == modification_number:
+                            # Re-submit the same opt type as we already had previously
+                            result = self.responded_events[event_id]
+                        else:
+                            # Replace the event with the fresh copy
+                            utils.pop_by(self.received_events, 'event_descriptor.event_id', event_id)
+                            self.received_events.append(event)
+                            # Wait for the result of the on_update_event handler
+                            result = await utils.await_if_required(self.on_update_event(event))
                     else:
-                        # Replace the event with the fresh copy
-                        utils.pop_by(self.received_events, 'event_descriptor.event_id', event_id)
+                        # Wait for the result of the on_event
                         self.received_events.append(event)
-                        # Wait for the result of the on_update_event handler
-                        result = await utils.await_if_required(self.on_update_event(event))
-                else:
-                    # Wait for the result of the on_event
-                    self.received_events.append(event)
-                    result = self.on_event(event)
-                if asyncio.iscoroutine(result):
-                    result = await result
+                        result = self.on_event(event)
+                    if asyncio.iscoroutine(result):
+                        result = await result
+                except Exception as err:
+                    logger.error("Your on_event handler encountered an error. Will Opt Out of the event. "
+                                 f"The error was {err.__class__.__name__}: {str(err)}")
+                    result = 'optOut'
                 results.append(result)
-                if event_status in (enums.EVENT_STATUS.COMPLETED, enums.EVENT_STATUS.CANCELLED) \
-                        and event_id in self.responded_events:
-                    self.responded_events.pop(event_id)
-                else:
-                    self.responded_events[event_id] = result
+                self.responded_events[event_id] = result
             for i, result in enumerate(results):
                 if result not in ('optIn', 'optOut') and events[i]['response_required'] == 'always':
                     logger.error("Your on_event or on_update_event handler must return 'optIn' or 'optOut'; "
@@ -1260,6 +1261,7 @@ class OpenADRClient:
                     utils.determine_event_status(event['active_period']) == 'completed':
                 logger.info(f"Removing event {event} because it is no longer relevant.")
                 self.received_events.pop(i)
+                self.responded_events.pop(event['event_descriptor']['event_id'], None)
 
     async def _poll(self):
         logger.debug("Now polling for new messages")
-- 
2.43.0


From 7ab7d9d5df96f45107a189b42c08efece1b2af78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:18:30 +0000
Subject: [PATCH 10/78] fix: handle a report cancellation that comes with
 oadrUpdatedReport

The result of _perform_request was not unpacked, so that a piggybacked
oadrCancelReport was never noticed. Also, a report that cannot be sent no longer
ends the task that sends all reports.
---
 openleadr/client.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/openleadr/client.py b/openleadr/client.py
index 73bd095..e092f92 100755
--- a/openleadr/client.py
+++ b/openleadr/client.py
@@ -982,13 +982,12 @@ class OpenADRClient:
             while True:
                 report = await self.pending_reports.get()
                 service = 'EiReport'
-                message = self._create_message('oadrUpdateReport',
-                                               ven_id=self.ven_id,
-                                               request_id=utils.generate_id(),
-                                               reports=[report])
                 try:
-                    # response_type, response_payload = await self._perform_request(service, message)
-                    response_payload = await self._perform_request(service, message)
+                    message = self._create_message('oadrUpdateReport',
+                                                   ven_id=self.ven_id,
+                                                   request_id=utils.generate_id(),
+                                                   reports=[report])
+                    response_type, response_payload = await self._perform_request(service, message)
                 except Exception as err:
                     logger.error(f"Unable to send the report to the VTN. Error: {err}")
                 else:
-- 
2.43.0


From a329a0901151059399129e52cf107e994087934f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:18:30 +0000
Subject: [PATCH 11/78] fix: do not fail on an empty response from the VTN

---
 openleadr/client.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openleadr/client.py b/openleadr/client.py
index e092f92..b9e4a2c 100755
--- a/openleadr/client.py
+++ b/openleadr/client.py
@@ -1106,7 +1106,7 @@ class OpenADRClient:
             logger.error(f"Request error {err.__class__.__name__}:{err}")
             return None, {}
         if len(content) == 0:
-            return None
+            return None, {}
         try:
             await self._execute_hooks('before_schema_validation', utils.ensure_str(content))
             tree = validate_xml_schema(content)
-- 
2.43.0


From d6817a43e307d98f0ede13d3d195d3ea21f7b114 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:22:02 +0000
Subject: [PATCH 12/78] fix: keep the report requests in one message apart

The list of requested r_ids was shared by all report requests in a message, so
that each report was sampled and sent with the data points of all the others.
Likewise, all requests after a one-off request were treated as one-off.
---
 openleadr/client.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/openleadr/client.py b/openleadr/client.py
index b9e4a2c..36692b9 100755
--- a/openleadr/client.py
+++ b/openleadr/client.py
@@ -725,10 +725,10 @@ class OpenADRClient:
         """
         service = 'EiReport'
         response_code = 200
-        single = False
-        requested_r_ids = []
 
         for report_request in response_payload['report_requests']:
+            single = False
+            requested_r_ids = []
             r_id = report_request['report_specifier']['specifier_payloads'][0]['r_id']
             if 'INVALID' in report_request['report_specifier']['report_specifier_id'] or (isinstance(r_id, str) and 'INVALID' in r_id):
                 logger.error("The VTN requested an invalid report. Will respond with an error.")
-- 
2.43.0


From 9208c68883a2274542027668fd159d9c180f29bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:22:02 +0000
Subject: [PATCH 13/78] fix: send the right report when multiple one-off
 reports are requested

The scheduled callback looked up report_request_id at the time it was run, which
is then the id of the last request in the message.
---
 openleadr/client.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/openleadr/client.py b/openleadr/client.py
index 36692b9..b2c9163 100755
--- a/openleadr/client.py
+++ b/openleadr/client.py
@@ -820,13 +820,12 @@ class OpenADRClient:
                                                     'granularity': granularity,
                                                     'job': None})
                     
-                        async def report_callback():
-                            await self.update_report(report_request_id)
+                        report_callback = partial(self.update_report, report_request_id=report_request_id)
 
                         if 'report_interval' in report_request['report_specifier']:
                             self.scheduler.add_job(report_callback, 'date', run_date=report_request['report_specifier']['report_interval']['dtstart'])
                         else:
-                            await self.update_report(report_request_id)
+                            await report_callback()
         
         # Send the oadrCreatedReport message
         message_type = 'oadrCreatedReport'
-- 
2.43.0


From 0a12fc5c97b64c40c42e9601427d2eb2b3061af9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:22:02 +0000
Subject: [PATCH 14/78] fix: do not schedule reports without any valid data
 point

These were sent as reports without any intervals, or failed on every sampling.
---
 openleadr/client.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/openleadr/client.py b/openleadr/client.py
index b2c9163..930c8d8 100755
--- a/openleadr/client.py
+++ b/openleadr/client.py
@@ -799,7 +799,15 @@ class OpenADRClient:
 
                         requested_r_ids.append(r_id)
 
-                    if not single and report_back_duration.total_seconds() > 0:
+                    if not requested_r_ids:
+                        # There is nothing to sample, just keep track of the request
+                        self.report_requests.append({'report_request_id': report_request_id,
+                                                    'report_specifier_id': report_specifier_id,
+                                                    'report_back_duration': report_back_duration,
+                                                    'r_ids': requested_r_ids,
+                                                    'granularity': granularity,
+                                                    'job': None})
+                    elif not single and report_back_duration.total_seconds() > 0:
                         callback = partial(self.update_report, report_request_id=report_request_id)
                         
                         reporting_interval = granularity or report_back_duration
-- 
2.43.0


From eee8efd0c2d6f48a9eb2dfc10878cf622b0bcf17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:22:02 +0000
Subject: [PATCH 15/78] fix: send a report that is complete after its first
 sampling, or more than complete

If the callbacks return more values than expected, the report was held forever
or failed with a KeyError.
---
 openleadr/client.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/openleadr/client.py b/openleadr/client.py
index 930c8d8..a14988f 100755
--- a/openleadr/client.py
+++ b/openleadr/client.py
@@ -928,9 +928,10 @@ class OpenADRClient:
             report_interval = report_back_duration.total_seconds()
             sampling_interval = granularity.total_seconds()
             expected_len = len(report_request['r_ids']) * int(report_interval / sampling_interval)
-            if len(outgoing_report.intervals) == expected_len:
+            if len(outgoing_report.intervals) >= expected_len:
                 logger.info("The report is now complete with all the values. Will queue for sending.")
-                await self.pending_reports.put(self.incomplete_reports.pop(report_request_id))
+                self.incomplete_reports.pop(report_request_id, None)
+                await self.pending_reports.put(outgoing_report)
             else:
                 logger.debug("The report is not yet complete, will hold until it is.")
                 self.incomplete_reports[report_request_id] = outgoing_report
-- 
2.43.0


From bb6c01928d5f788c62af6d8d433fdd06b6715222 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:22:02 +0000
Subject: [PATCH 16/78] fix: accept a dict as the measurement in add_report

It failed with an AttributeError on object.PowerAttributes.
---
 openleadr/client.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/openleadr/client.py b/openleadr/client.py
index a14988f..a980c2d 100755
--- a/openleadr/client.py
+++ b/openleadr/client.py
@@ -305,7 +305,9 @@ class OpenADRClient:
             item_base = measurement
         elif isinstance(measurement, dict):
             utils.validate_report_measurement_dict(measurement)
-            power_attributes = object.PowerAttributes(**measurement.get('power_attributes')) or None
+            power_attributes = measurement.get('power_attributes')
+            if isinstance(power_attributes, dict):
+                power_attributes = objects.PowerAttributes(**power_attributes)
             item_base = objects.Measurement(name=measurement['name'],
                                             description=measurement['description'],
                                             unit=measurement['unit'],
-- 
2.43.0


From 12ee0f9c0506ff508f7a0963002368be787fb4e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:22:02 +0000
Subject: [PATCH 17/78] fix: do not share the scale between all reports for the
 same measurement

Setting the scale modified the global definition of the measurement, and thus
all other reports (of all clients) for that measurement.
---
 openleadr/client.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/openleadr/client.py b/openleadr/client.py
index a980c2d..0dabc39 100755
--- a/openleadr/client.py
+++ b/openleadr/client.py
@@ -19,7 +19,7 @@ import inspect
 import logging
 import ssl
 from datetime import datetime, timedelta, timezone
-from dataclasses import asdict
+from dataclasses import asdict, replace
 from functools import partial
 from http import HTTPStatus
 
@@ -302,7 +302,7 @@ class OpenADRClient:
         if report_name == 'TELEMETRY_STATUS':
             item_base = None
         elif isinstance(measurement, objects.Measurement):
-            item_base = measurement
+            item_base = replace(measurement)
         elif isinstance(measurement, dict):
             utils.validate_report_measurement_dict(measurement)
             power_attributes = measurement.get('power_attributes')
@@ -314,7 +314,7 @@ class OpenADRClient:
                                             scale=measurement.get('scale'),
                                             power_attributes=power_attributes)
         elif measurement.upper() in enums.MEASUREMENTS.members:
-            item_base = enums.MEASUREMENTS[measurement.upper()]
+            item_base = replace(enums.MEASUREMENTS[measurement.upper()])
         else:
             item_base = objects.Measurement(name='customUnit',
                                             description=measurement,
-- 
2.43.0


From 9cb15a4f4707d2ba89b3e06192566cad538d9237 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:22:02 +0000
Subject: [PATCH 18/78] fix: return the report_specifier_id when adding to an
 existing report

---
 openleadr/client.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openleadr/client.py b/openleadr/client.py
index 0dabc39..55127a8 100755
--- a/openleadr/client.py
+++ b/openleadr/client.py
@@ -366,7 +366,7 @@ class OpenADRClient:
                                                        market_context=market_context)
         self.report_callbacks[(report.report_specifier_id, r_id)] = callback
         report.report_descriptions.append(report_description)
-        return report_specifier_id, r_id
+        return report.report_specifier_id, r_id
 
     def add_hook(self, hook_name, handler):
         """
-- 
2.43.0


From 373208782d85fbfdf205b7c44b7d42977f8ea880 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:22:02 +0000
Subject: [PATCH 19/78] fix: do not keep sending the old reports after a
 re-registration

After a re-registration the VTN requests reports anew, with new report request
ids, but the old requests were still sampled and sent as well, and another
report queue worker was started every time.
---
 openleadr/client.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/openleadr/client.py b/openleadr/client.py
index 55127a8..6262ad5 100755
--- a/openleadr/client.py
+++ b/openleadr/client.py
@@ -497,7 +497,7 @@ class OpenADRClient:
             return
 
         await self.register_reports(self.reports)
-        if self.reports:
+        if self.reports and not self.report_queue_task:
             self.report_queue_task = self.loop.create_task(self._report_queue_worker())
 
         # Perform initial event sync
@@ -714,6 +714,14 @@ class OpenADRClient:
         message = self._create_message('oadrRegisterReport', **payload)
         response_type, response_payload = await self._perform_request(service, message)
 
+        # The reports that the VTN requests now replace all reports it requested before.
+        if response_type == 'oadrRegisteredReport':
+            for report_request in self.report_requests:
+                if report_request['job']:
+                    report_request['job'].remove()
+            self.report_requests = []
+            self.incomplete_reports = {}
+
         # Handle the subscriptions that the VTN is interested in.
         if 'report_requests' in response_payload:
             await self.create_report(response_payload)
-- 
2.43.0


From 28cac0348adecb27fb8b88d17513ecde0e96438d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:22:02 +0000
Subject: [PATCH 20/78] fix: allow stopping a client that did not make any
 requests yet

---
 openleadr/client.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/openleadr/client.py b/openleadr/client.py
index 6262ad5..23feab2 100755
--- a/openleadr/client.py
+++ b/openleadr/client.py
@@ -188,7 +188,8 @@ class OpenADRClient:
             self.scheduler.shutdown()
         if self.report_queue_task:
             self.report_queue_task.cancel()
-        await self.client_session.close()
+        if self.client_session:
+            await self.client_session.close()
         await asyncio.sleep(0)
 
     def add_handler(self, handler, callback):
-- 
2.43.0


From b71de2ec7650ea9baf55c64fe85f0d80607b98e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:22:02 +0000
Subject: [PATCH 21/78] fix: allow declining some of the data points of a
 report

A None among the results of the on_register_report handler caused a TypeError,
and thus no reports were requested at all.
---
 openleadr/service/report_service.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/openleadr/service/report_service.py b/openleadr/service/report_service.py
index 17e1084..0692d78 100644
--- a/openleadr/service/report_service.py
+++ b/openleadr/service/report_service.py
@@ -161,6 +161,9 @@ class ReportService(VTNService):
         for i, report_request in enumerate(report_requests):
             if report_request is None or len(report_request) == 0 or all(rrq is None for rrq in report_request):
                 continue
+            # Leave out the data points that were declined or invalid
+            report_request = [rrq for rrq in report_request if rrq is not None]
+            report_requests[i] = report_request
             # Check if all sampling rates per report_request are the same
             sampling_interval = min(rrq[2] for rrq in report_request if isinstance(rrq, tuple))
             if not all(rrq is not None and report_request[0][2] == sampling_interval for rrq in report_request):
-- 
2.43.0


From e658e8f0948a569f136cf83ac4537182a1c74f3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:22:02 +0000
Subject: [PATCH 22/78] fix: request the smallest sampling interval if there
 are multiple

As the log message says; it was the sampling interval of the last data point.
---
 openleadr/service/report_service.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/openleadr/service/report_service.py b/openleadr/service/report_service.py
index 0692d78..50db4c2 100644
--- a/openleadr/service/report_service.py
+++ b/openleadr/service/report_service.py
@@ -181,12 +181,13 @@ class ReportService(VTNService):
             report_specifier_id = orig_report['report_specifier_id']
             report_request_id = utils.generate_id()
             specifier_payloads = []
+            sampling_interval = min(rrq[2] for rrq in report_request)
+            report_interval = sampling_interval
             for rrq in report_request:
                 if len(rrq) == 3:
-                    r_id, callback, sampling_interval = rrq
-                    report_interval = sampling_interval
+                    r_id, callback, _ = rrq
                 elif len(rrq) == 4:
-                    r_id, callback, sampling_interval, report_interval = rrq
+                    r_id, callback, _, report_interval = rrq
 
                 report_description = utils.find_by(orig_report['report_descriptions'], 'r_id', r_id)
                 reading_type = report_description['reading_type']
-- 
2.43.0


From 8b2a6952a6efec3fab82b03676f15fc0295545b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:22:02 +0000
Subject: [PATCH 23/78] fix: ignore requests for data points that were not
 offered

It caused a TypeError, and thus no reports were requested at all.
---
 openleadr/service/report_service.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/openleadr/service/report_service.py b/openleadr/service/report_service.py
index 50db4c2..3bfcfd0 100644
--- a/openleadr/service/report_service.py
+++ b/openleadr/service/report_service.py
@@ -190,12 +190,19 @@ class ReportService(VTNService):
                     r_id, callback, _, report_interval = rrq
 
                 report_description = utils.find_by(orig_report['report_descriptions'], 'r_id', r_id)
+                if report_description is None:
+                    logger.error(f"Your on_register_report handler requested r_id {r_id}, which does not exist "
+                                 f"in the report with report_specifier_id {report_specifier_id}.")
+                    continue
                 reading_type = report_description['reading_type']
                 specifier_payloads.append(objects.SpecifierPayload(r_id=r_id,
                                                                    reading_type=reading_type))
                 # Append the callback to our list of known callbacks
                 self.report_callbacks[(report_request_id, r_id)] = callback
 
+            if not specifier_payloads:
+                continue
+
             # Add the ReportSpecifier to the ReportRequest
             report_specifier = objects.ReportSpecifier(report_specifier_id=report_specifier_id,
                                                        granularity=sampling_interval,
-- 
2.43.0


From d377678651603721a03c68f802a0b8e09680a42a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:22:02 +0000
Subject: [PATCH 24/78] fix: accept a report with a measurement that has no
 scale

Like pulseCount.
---
 openleadr/service/report_service.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openleadr/service/report_service.py b/openleadr/service/report_service.py
index 3bfcfd0..7b681e8 100644
--- a/openleadr/service/report_service.py
+++ b/openleadr/service/report_service.py
@@ -115,7 +115,7 @@ class ReportService(VTNService):
                                                        resource_id=rd.get('report_data_source', {}).get('resource_id'),
                                                        measurement=rd['measurement']['description'],
                                                        unit=rd['measurement']['unit'],
-                                                       scale=rd['measurement']['scale'],
+                                                       scale=rd['measurement'].get('scale'),
                                                        min_sampling_interval=rd['sampling_rate']['min_period'],
                                                        max_sampling_interval=rd['sampling_rate']['max_period'])
                                for rd in report['report_descriptions']]
-- 
2.43.0


From 9c9383ceebb086f72f73d72318f85c23a6ee2e7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:22:02 +0000
Subject: [PATCH 25/78] fix: accept an oadrUpdateReport without reports or
 intervals

---
 openleadr/service/report_service.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/openleadr/service/report_service.py b/openleadr/service/report_service.py
index 7b681e8..99240a2 100644
--- a/openleadr/service/report_service.py
+++ b/openleadr/service/report_service.py
@@ -239,14 +239,14 @@ class ReportService(VTNService):
         """
         Handle a report that we received from the VEN.
         """
-        for report in payload['reports']:
+        for report in payload.get('reports', []):
             report_request_id = report['report_request_id']
             if not self.report_callbacks:
                 result = self.on_update_report(report)
                 if iscoroutine(result):
                     result = await result
                 continue
-            for r_id, values in utils.group_by(report['intervals'], 'report_payload.r_id').items():
+            for r_id, values in utils.group_by(report.get('intervals') or [], 'report_payload.r_id').items():
                 # Find the callback that was registered.
                 if (report_request_id, r_id) in self.report_callbacks:
                     # Collect the values
-- 
2.43.0


From 01cf0f9a92f15ca1f158d6c4515c34b213959912 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:22:02 +0000
Subject: [PATCH 26/78] fix: accept an oadrCreatedReport from a VEN that did
 not register reports

---
 openleadr/service/report_service.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openleadr/service/report_service.py b/openleadr/service/report_service.py
index 99240a2..8d5f4c9 100644
--- a/openleadr/service/report_service.py
+++ b/openleadr/service/report_service.py
@@ -295,7 +295,7 @@ class ReportService(VTNService):
                 self.created_reports[ven_id].append(pending_report['report_request_id'])
 
         # Check if all requested reports were created
-        for requested_report in self.requested_reports[ven_id]:
+        for requested_report in self.requested_reports.get(ven_id, []):
             if requested_report.report_request_id not in self.created_reports[ven_id]:
                 logger.warning(f"The requested report with id {requested_report.report_request_id} "
                                "was not created by the VEN. Yoy may want to contact the VEN to "
-- 
2.43.0


From 9373474f1a9794015395a0d1dcb46b5d1bcb0e38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:22:02 +0000
Subject: [PATCH 27/78] fix: parse durations in weeks

P2W was parsed as a duration of zero.
---
 openleadr/utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/openleadr/utils.py b/openleadr/utils.py
index 3934c1b..b644e1f 100755
--- a/openleadr/utils.py
+++ b/openleadr/utils.py
@@ -290,11 +290,11 @@ def parse_duration(value):
     """
     if isinstance(value, timedelta):
         return value
-    regex = r'(\+|\-)?P(?:(?:(\d+)Y)?(?:(\d+)M)?(?:(\d+)D)?T?(?:(\d+)H)?(?:(\d+)M)?(?:(\d+)S)?)|(?:(\d+)W)'
+    regex = r'(\+|\-)?(?:P?(\d+)W|P(?:(\d+)Y)?(?:(\d+)M)?(?:(\d+)D)?T?(?:(\d+)H)?(?:(\d+)M)?(?:(\d+)S)?)'
     matches = re.match(regex, value)
     if not matches:
         raise ValueError(f"The duration '{value}' did not match the requested format")
-    years, months, days, hours, minutes, seconds, weeks = (int(g) if g else 0 for g in matches.groups()[1:])
+    weeks, years, months, days, hours, minutes, seconds = (int(g) if g else 0 for g in matches.groups()[1:])
     if years != 0:
         logger.warning("Received a duration that specifies years, which is not a determinate duration. "
                        "It will be interpreted as 1 year = 365 days.")
-- 
2.43.0


From 2cae6c6f2f9c8a36748d405d718211bb924dc8ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:22:02 +0000
Subject: [PATCH 28/78] fix: keep the current_value of a SIMPLE event that is
 active

---
 openleadr/preflight.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openleadr/preflight.py b/openleadr/preflight.py
index d3eca74..8068748 100644
--- a/openleadr/preflight.py
+++ b/openleadr/preflight.py
@@ -102,7 +102,7 @@ def _preflight_oadrDistributeEvent(message_payload):
         for event_signal in event['event_signals']:
             if 'current_value' in event_signal and event_signal['current_value'] != 0:
                 if event_signal['signal_name'] == "SIMPLE" \
-                        and event['event_descriptor']['event_status'] != "ACTIVE":
+                        and event['event_descriptor']['event_status'] != enums.EVENT_STATUS.ACTIVE:
                     logger.warning("The current_value for a SIMPLE event "
                                    "that is not yet active must be 0. "
                                    "This will be corrected.")
-- 
2.43.0


From 51b1f6521596b2c4af5fc59ef7f222cade61f61a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:22:02 +0000
Subject: [PATCH 29/78] fix: accept a list of events from the on_poll handler

---
 openleadr/service/poll_service.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openleadr/service/poll_service.py b/openleadr/service/poll_service.py
index dfe4606..4afe56b 100644
--- a/openleadr/service/poll_service.py
+++ b/openleadr/service/poll_service.py
@@ -137,7 +137,7 @@ class PollService(VTNService):
         if isinstance(result, tuple):
             return result
         if isinstance(result, list):
-            return 'oadrDistributeEvent', result
+            return 'oadrDistributeEvent', {'events': result}
         if isinstance(result, dict) and 'event_descriptor' in result:
             return 'oadrDistributeEvent', {'events': [result]}
         if isinstance(result, objects.Event):
-- 
2.43.0


From fb6a625b1431332645171c349364ea9a8c8de461 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:23:58 +0000
Subject: [PATCH 30/78] fix: keep sending reports after a failing report
 cancellation

---
 openleadr/client.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/openleadr/client.py b/openleadr/client.py
index 23feab2..8187b11 100755
--- a/openleadr/client.py
+++ b/openleadr/client.py
@@ -1007,11 +1007,10 @@ class OpenADRClient:
                                                    request_id=utils.generate_id(),
                                                    reports=[report])
                     response_type, response_payload = await self._perform_request(service, message)
-                except Exception as err:
-                    logger.error(f"Unable to send the report to the VTN. Error: {err}")
-                else:
                     if 'cancel_report' in response_payload:
                         await self.cancel_report(response_payload['cancel_report'])
+                except Exception as err:
+                    logger.error(f"Unable to send the report to the VTN. Error: {err}")
         except asyncio.CancelledError:
             return
 
-- 
2.43.0


From 4c87250940408d65b463a35ab3e0bbb9bc30f05d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:23:58 +0000
Subject: [PATCH 31/78] fix: keep the security settings of multiple servers
 apart

The signing certificate, the lookup functions and the verification of signatures
were set on the class that all services of all servers share, so that a new
OpenADRServer changed those of the servers that already existed, and a server
without a lookup function used that of an earlier one.
---
 openleadr/server.py | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/openleadr/server.py b/openleadr/server.py
index 352c015..fa92d96 100755
--- a/openleadr/server.py
+++ b/openleadr/server.py
@@ -81,10 +81,6 @@ class OpenADRServer:
         self.app = web.Application()
         self.services = {}
 
-        # Globally enable or disable the verification of message
-        # signatures. Only used in combination with TLS.
-        VTNService.verify_message_signatures = verify_message_signatures
-
         # Create the separate OpenADR services
         self.services['event_service'] = EventService(vtn_id)
         self.services['report_service'] = ReportService(vtn_id)
@@ -95,6 +91,11 @@ class OpenADRServer:
         self.services['poll_service'].event_service = self.services['event_service']
         self.services['poll_service'].report_service = self.services['report_service']
 
+        # Enable or disable the verification of message signatures.
+        # Only used in combination with TLS.
+        for service in self.services.values():
+            service.verify_message_signatures = verify_message_signatures
+
         # Set up the HTTP handlers for the services
         http_path_prefix = http_path_prefix.rstrip("/")
         self.app.add_routes([web.post(f"{http_path_prefix}/{s.__service_name__}", s.handler)
@@ -136,20 +137,23 @@ class OpenADRServer:
                     print(utils.certificate_domain(cert).center(80))
                 print("*" * 80)
                 print("")
-        VTNService._create_message = partial(create_message, cert=cert, key=key,
-                                             passphrase=passphrase)
+        for service in self.services.values():
+            service._create_message = partial(create_message, cert=cert, key=key,
+                                              passphrase=passphrase)
         if fingerprint_lookup is not None:
             logger.warning("DeprecationWarning: the argument 'fingerprint_lookup' is deprecated and "
                            "is replaced by 'ven_lookup'. 'fingerprint_lookup' will be removed in a "
                            "future version of OpenLEADR. Please see "
                            "https://openleadr.org/docs/server.html#things-you-should-implement.")
-            VTNService.fingerprint_lookup = staticmethod(fingerprint_lookup)
+            for service in self.services.values():
+                service.fingerprint_lookup = fingerprint_lookup
         if ven_lookup is None:
             logger.warning("If you provide a 'ven_lookup' to your OpenADRServer() init, OpenLEADR can "
                            "automatically issue ReregistrationRequests for VENs that don't exist in "
                            "your system. Please see https://openleadr.org/docs/server.html#things-you-should-implement.")
         else:
-            VTNService.ven_lookup = staticmethod(ven_lookup)
+            for service in self.services.values():
+                service.ven_lookup = ven_lookup
         self.__setattr__ = self.add_handler
 
     async def run(self):
-- 
2.43.0


From cf5e34a2bda73efc1a5ae01a0cfadb3bf63204bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:23:58 +0000
Subject: [PATCH 32/78] fix: send complete error responses of the right type

The responses to messages that result in a protocol error did not contain the
request id, the venID and vtnID, the response to oadrCreatePartyRegistration was
of the wrong type, and the response to oadrRequestEvent could not be created at
all, resulting in a HTTP 500.
---
 openleadr/service/vtn_service.py     | 11 ++++++++++-
 openleadr/templates/oadrResponse.xml |  2 ++
 2 files changed, 12 insertions(+), 1 deletion(-)

diff --git a/openleadr/service/vtn_service.py b/openleadr/service/vtn_service.py
index a6ed507..586b8ca 100644
--- a/openleadr/service/vtn_service.py
+++ b/openleadr/service/vtn_service.py
@@ -129,6 +129,9 @@ class VTNService:
             response_type, response_payload = self.error_response(message_type,
                                                                   err.response_code,
                                                                   err.response_description)
+            response_payload['response']['request_id'] = message_payload.get('request_id')
+            response_payload['vtn_id'] = self.vtn_id
+            response_payload['ven_id'] = message_payload.get('ven_id')
             msg = self._create_message(response_type, **response_payload)
             response = web.Response(text=msg,
                                     status=HTTPStatus.OK,
@@ -194,6 +197,7 @@ class VTNService:
                                                                   "A message of type "
                                                                   f"{message_type} should not be "
                                                                   f"sent to this endpoint ({self.__service_name__})")
+            response_payload['response']['request_id'] = message_payload.get('request_id')
         logger.info(f"Responding to {message_type} with a {response_type} message: {response_payload}.")
         hooks.call('after_handle', response_type, response_payload)
         return response_type, response_payload
@@ -201,10 +205,15 @@ class VTNService:
     def error_response(self, message_type, error_code, error_description):
         if message_type == 'oadrCreatePartyRegistration':
             response_type = 'oadrCreatedPartyRegistration'
-        if message_type == 'oadrRequestEvent':
+        elif message_type == 'oadrRequestEvent':
             response_type = 'oadrDistributeEvent'
         else:
             response_type = 'oadrResponse'
         response_payload = {'response': {'response_code': error_code,
                                          'response_description': error_description}}
+        if response_type == 'oadrDistributeEvent':
+            response_payload.update({'request_id': utils.generate_id(), 'events': []})
+        elif response_type == 'oadrCreatedPartyRegistration':
+            response_payload['profiles'] = [{'profile_name': '2.0b',
+                                             'transports': [{'transport_name': 'simpleHttp'}]}]
         return response_type, response_payload
diff --git a/openleadr/templates/oadrResponse.xml b/openleadr/templates/oadrResponse.xml
index 2cea65e..b98c92a 100644
--- a/openleadr/templates/oadrResponse.xml
+++ b/openleadr/templates/oadrResponse.xml
@@ -9,6 +9,8 @@
       <requestID xmlns="http://docs.oasis-open.org/ns/energyinterop/201110/payloads" />
       {% endif %}
     </ei:eiResponse>
+    {% if ven_id is defined and ven_id is not none %}
     <ei:venID>{{ ven_id }}</ei:venID>
+    {% endif %}
   </oadr:oadrResponse>
 </oadr:oadrSignedObject>
\ No newline at end of file
-- 
2.43.0


From 9287001d877dd0811599050cbf58222279ec49ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:23:58 +0000
Subject: [PATCH 33/78] fix: send a schema-valid rejection when the
 registration handler returns something wrong

---
 openleadr/service/registration_service.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/openleadr/service/registration_service.py b/openleadr/service/registration_service.py
index 5b32fea..6af1ed1 100644
--- a/openleadr/service/registration_service.py
+++ b/openleadr/service/registration_service.py
@@ -99,7 +99,10 @@ class RegistrationService(VTNService):
                 logger.error("Your on_create_party_registration handler should return either "
                              "'False' (if the client is rejected) or a (ven_id, registration_id) "
                              "tuple. Will REJECT the client for now.")
-                response_payload = {}
+                transports = [{'transport_name': payload['transport_name']}]
+                response_payload = {'profiles': [{'profile_name': payload['profile_name'],
+                                                  'transports': transports}],
+                                    'requested_oadr_poll_freq': self.poll_freq}
             else:
                 ven_id, registration_id = result
                 transports = [{'transport_name': payload['transport_name']}]
-- 
2.43.0


From 6ea93753defad97227fad4b6e685470be6991dbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:23:58 +0000
Subject: [PATCH 34/78] fix: keep the callbacks for events of different VENs
 with the same event_id apart

---
 openleadr/server.py                | 4 ++--
 openleadr/service/event_service.py | 8 ++++----
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/openleadr/server.py b/openleadr/server.py
index fa92d96..b540b1a 100755
--- a/openleadr/server.py
+++ b/openleadr/server.py
@@ -315,9 +315,9 @@ class OpenADRServer:
 
         # Add the callback for the response to this event
         if callback is not None:
-            self.event_callbacks[event_id] = (event, callback)
+            self.event_callbacks[(ven_id, event_id)] = (event, callback)
         if delivery_callback is not None:
-            self.event_delivery_callbacks[event_id] = delivery_callback
+            self.event_delivery_callbacks[(ven_id, event_id)] = delivery_callback
         return event_id
 
     def cancel_event(self, ven_id, event_id):
diff --git a/openleadr/service/event_service.py b/openleadr/service/event_service.py
index 169ded6..0bd0fa3 100644
--- a/openleadr/service/event_service.py
+++ b/openleadr/service/event_service.py
@@ -68,8 +68,8 @@ class EventService(VTNService):
             # Fire the delivery callbacks, if any
             for event in events:
                 event_id = utils.getmember(event, 'event_descriptor.event_id')
-                if event_id in self.event_delivery_callbacks:
-                    await utils.await_if_required(self.event_delivery_callbacks[event_id]())
+                if (ven_id, event_id) in self.event_delivery_callbacks:
+                    await utils.await_if_required(self.event_delivery_callbacks[(ven_id, event_id)]())
             return 'oadrDistributeEvent', {'events': events}
         return 'oadrResponse', result
 
@@ -106,8 +106,8 @@ class EventService(VTNService):
                 # Remove the event from the events list if the cancellation is confirmed.
                 if event and utils.getmember(event, 'event_descriptor.event_status') == enums.EVENT_STATUS.CANCELLED:
                     utils.pop_by(self.events[ven_id], 'event_descriptor.event_id', event_id)
-                if event_response['event_id'] in self.event_callbacks:
-                    event, callback = self.event_callbacks.pop(event_id)
+                if (ven_id, event_id) in self.event_callbacks:
+                    event, callback = self.event_callbacks.pop((ven_id, event_id))
                     if isinstance(callback, asyncio.Future):
                         if callback.done():
                             logger.warning(f"Got a second response '{opt_type}' from ven '{ven_id}' "
-- 
2.43.0


From e06c3bcdc9bf39d5c7d20917ad08cd6d0fbd6873 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:23:58 +0000
Subject: [PATCH 35/78] fix: do not interpret ids, names and comments as
 numbers

Events, VENs and data points with an id like '123' could not be used, because the
id in the messages of the other party did not match.
---
 openleadr/utils.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/openleadr/utils.py b/openleadr/utils.py
index b644e1f..94638b1 100755
--- a/openleadr/utils.py
+++ b/openleadr/utils.py
@@ -95,6 +95,11 @@ def normalize_dict(ordered_dict):
             d[key] = parse_duration(value)
         elif ("date_time" in key or key == "dtstart") and isinstance(value, str):
             d[key] = parse_datetime(value)
+        elif isinstance(value, str) and key in ("event_id", "ven_id", "registration_id", "r_id", "report_specifier_id",
+                                                "resource_id", "group_id", "party_id", "opt_id", "signal_id",
+                                                "ven_name", "vtn_comment", "market_context"):
+            # Identifiers and descriptions are text, also if they look like a number or boolean
+            d[key] = value
         elif value in ('true', 'false'):
             d[key] = parse_boolean(value)
         elif isinstance(value, str):
-- 
2.43.0


From 1931675f2b64a333f39bfaa9475002a121362329 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:23:58 +0000
Subject: [PATCH 36/78] fix: confirm the cancellation of a registration with
 the right message

The handler should not return anything according to the documentation, but then
the VEN got an oadrResponse, and thus considered itself still registered.
---
 openleadr/service/registration_service.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/openleadr/service/registration_service.py b/openleadr/service/registration_service.py
index 6af1ed1..7e6eb1e 100644
--- a/openleadr/service/registration_service.py
+++ b/openleadr/service/registration_service.py
@@ -137,6 +137,8 @@ class RegistrationService(VTNService):
         result = self.on_cancel_party_registration(payload)
         if iscoroutine(result):
             result = await result
+        if result is None:
+            return 'oadrCanceledPartyRegistration', {'registration_id': payload['registration_id']}
         return result
 
     def on_cancel_party_registration(self, ven_id):
-- 
2.43.0


From 005cbdc9d3e3fd2c957783bfd7b6e4bf54bf5d68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:23:58 +0000
Subject: [PATCH 37/78] fix: accept the currencyPerKW measurement

---
 openleadr/enums.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openleadr/enums.py b/openleadr/enums.py
index 2ed9f79..e003cfa 100644
--- a/openleadr/enums.py
+++ b/openleadr/enums.py
@@ -255,7 +255,7 @@ _MEASUREMENT_DESCRIPTIONS = {'currency': 'currency',
                              'voltage': 'Voltage'}
 
 _MEASUREMENT_NAMESPACES = {'currency': 'oadr',
-                           'currencyPerWK': 'oadr',
+                           'currencyPerKW': 'oadr',
                            'currencyPerKWh': 'oadr',
                            'currencyPerThm': 'oadr',
                            'current': 'oadr',
-- 
2.43.0


From 99147a20c834d455ebea49067d3f6f4cadbf6493 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:23:58 +0000
Subject: [PATCH 38/78] fix: escape special characters in outgoing messages

A '&' or '<' in for instance the market context resulted in malformed XML.
---
 openleadr/messaging.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openleadr/messaging.py b/openleadr/messaging.py
index 5663fe1..a812ec9 100644
--- a/openleadr/messaging.py
+++ b/openleadr/messaging.py
@@ -216,7 +216,7 @@ REPLAY_PROTECT_MAX_TIME_DELTA = timedelta(seconds=5)
 NONCE_CACHE = set()
 
 # Settings for jinja2
-TEMPLATES = Environment(loader=PackageLoader('openleadr', 'templates'))
+TEMPLATES = Environment(loader=PackageLoader('openleadr', 'templates'), autoescape=True)
 TEMPLATES.filters['datetimeformat'] = utils.datetimeformat
 TEMPLATES.filters['timedeltaformat'] = utils.timedeltaformat
 TEMPLATES.filters['booleanformat'] = utils.booleanformat
-- 
2.43.0


From da6067df749e78a5679274917170efaf64baecac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:27:19 +0000
Subject: [PATCH 39/78] fix: do not drop a completed event if a delivery
 callback fails

The event was removed from the queue before it was communicated.
---
 openleadr/service/event_service.py | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/openleadr/service/event_service.py b/openleadr/service/event_service.py
index 0bd0fa3..21e5e2b 100644
--- a/openleadr/service/event_service.py
+++ b/openleadr/service/event_service.py
@@ -39,6 +39,7 @@ class EventService(VTNService):
         The VEN requests us to send any events we have.
         """
         ven_id = payload['ven_id']
+        completed_events = []
         if self.polling_method == 'internal':
             if ven_id in self.events and self.events[ven_id]:
                 events = utils.order_events(list(self.events[ven_id]))
@@ -51,6 +52,7 @@ class EventService(VTNService):
                         event_id = utils.getmember(event, 'event_descriptor.event_id')
                         self.completed_event_ids[ven_id].append(event_id)
                         self.events[ven_id].pop(self.events[ven_id].index(event))
+                        completed_events.append(event)
             else:
                 events = None
         else:
@@ -66,10 +68,16 @@ class EventService(VTNService):
             return 'oadrResponse', {}
         else:
             # Fire the delivery callbacks, if any
-            for event in events:
-                event_id = utils.getmember(event, 'event_descriptor.event_id')
-                if (ven_id, event_id) in self.event_delivery_callbacks:
-                    await utils.await_if_required(self.event_delivery_callbacks[(ven_id, event_id)]())
+            try:
+                for event in events:
+                    event_id = utils.getmember(event, 'event_descriptor.event_id')
+                    if (ven_id, event_id) in self.event_delivery_callbacks:
+                        await utils.await_if_required(self.event_delivery_callbacks[(ven_id, event_id)]())
+            except Exception:
+                # Nothing will be communicated, so keep the completed events for the next time
+                if completed_events:
+                    self.events[ven_id].extend(completed_events)
+                raise
             return 'oadrDistributeEvent', {'events': events}
         return 'oadrResponse', result
 
-- 
2.43.0


From c76ca49c8c6748c0282ed25a433e5175d4da9be3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:23 +0000
Subject: [PATCH 40/78] fix: accept an oadrCreatedEvent without event responses

---
 openleadr/service/event_service.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/openleadr/service/event_service.py b/openleadr/service/event_service.py
index 21e5e2b..2e6afb7 100644
--- a/openleadr/service/event_service.py
+++ b/openleadr/service/event_service.py
@@ -98,7 +98,7 @@ class EventService(VTNService):
         """
         ven_id = payload['ven_id']
         if self.polling_method == 'internal':
-            for event_response in payload['event_responses']:
+            for event_response in payload.get('event_responses', []):
                 event_id = event_response['event_id']
                 modification_number = event_response['modification_number']
                 opt_type = event_response['opt_type']
@@ -129,7 +129,7 @@ class EventService(VTNService):
                         if asyncio.iscoroutine(result):
                             result = await result
         else:
-            for event_response in payload['event_responses']:
+            for event_response in payload.get('event_responses', []):
                 event_id = event_response['event_id']
                 opt_type = event_response['opt_type']
                 result = await utils.await_if_required(self.on_created_event(ven_id=ven_id,
-- 
2.43.0


From fbbebd730828c55657b19bf68e02ceb6be8c188a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:07 +0000
Subject: [PATCH 41/78] fix: retire a completed event only when it is
 communicated

---
 openleadr/service/event_service.py | 33 ++++++++++++------------------
 1 file changed, 13 insertions(+), 20 deletions(-)

diff --git a/openleadr/service/event_service.py b/openleadr/service/event_service.py
index 2e6afb7..8e01b5d 100644
--- a/openleadr/service/event_service.py
+++ b/openleadr/service/event_service.py
@@ -39,20 +39,9 @@ class EventService(VTNService):
         The VEN requests us to send any events we have.
         """
         ven_id = payload['ven_id']
-        completed_events = []
         if self.polling_method == 'internal':
             if ven_id in self.events and self.events[ven_id]:
                 events = utils.order_events(list(self.events[ven_id]))
-                for event in events:
-                    event_status = utils.getmember(event, 'event_descriptor.event_status')
-                    # Pop the event from the events so that this is the last time it is communicated
-                    if event_status == enums.EVENT_STATUS.COMPLETED:
-                        if ven_id not in self.completed_event_ids:
-                            self.completed_event_ids[ven_id] = []
-                        event_id = utils.getmember(event, 'event_descriptor.event_id')
-                        self.completed_event_ids[ven_id].append(event_id)
-                        self.events[ven_id].pop(self.events[ven_id].index(event))
-                        completed_events.append(event)
             else:
                 events = None
         else:
@@ -68,16 +57,20 @@ class EventService(VTNService):
             return 'oadrResponse', {}
         else:
             # Fire the delivery callbacks, if any
-            try:
+            for event in events:
+                event_id = utils.getmember(event, 'event_descriptor.event_id')
+                if (ven_id, event_id) in self.event_delivery_callbacks:
+                    await utils.await_if_required(self.event_delivery_callbacks[(ven_id, event_id)]())
+            if self.polling_method == 'internal':
                 for event in events:
-                    event_id = utils.getmember(event, 'event_descriptor.event_id')
-                    if (ven_id, event_id) in self.event_delivery_callbacks:
-                        await utils.await_if_required(self.event_delivery_callbacks[(ven_id, event_id)]())
-            except Exception:
-                # Nothing will be communicated, so keep the completed events for the next time
-                if completed_events:
-                    self.events[ven_id].extend(completed_events)
-                raise
+                    event_status = utils.getmember(event, 'event_descriptor.event_status')
+                    # Pop the event from the events so that this is the last time it is communicated
+                    if event_status == enums.EVENT_STATUS.COMPLETED and event in self.events[ven_id]:
+                        if ven_id not in self.completed_event_ids:
+                            self.completed_event_ids[ven_id] = []
+                        event_id = utils.getmember(event, 'event_descriptor.event_id')
+                        self.completed_event_ids[ven_id].append(event_id)
+                        self.events[ven_id].pop(self.events[ven_id].index(event))
             return 'oadrDistributeEvent', {'events': events}
         return 'oadrResponse', result
 
-- 
2.43.0


From 45485751cc68dca67b0f3ff0bd138815bb70cfb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:17 +0000
Subject: [PATCH 42/78] fix: recognise the ramp up period of a received event

The VEN's status refresh turned near events into far ones, because the parsed
message names the period differently from the Event object.
---
 openleadr/utils.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/openleadr/utils.py b/openleadr/utils.py
index 94638b1..088194b 100755
--- a/openleadr/utils.py
+++ b/openleadr/utils.py
@@ -635,8 +635,12 @@ def determine_event_status(active_period):
         return 'completed'
     if now >= active_period_start:
         return 'active'
-    if getmember(active_period, 'ramp_up_period', missing=None) is not None:
-        ramp_up_start = active_period_start - getmember(active_period, 'ramp_up_period')
+    ramp_up_period = getmember(active_period, 'ramp_up_period', missing=None)
+    if ramp_up_period is None:
+        # This is how the period is named in a message that we received
+        ramp_up_period = getmember(active_period, 'ramp_up', missing=None)
+    if ramp_up_period is not None:
+        ramp_up_start = active_period_start - ramp_up_period
         if now >= ramp_up_start:
             return 'near'
     return 'far'
-- 
2.43.0


From 21b673185565c5c5c9278fa29f185b46ab4488fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:37:25 +0000
Subject: [PATCH 43/78] fix: keep the values of other data points when a report
 callback fails

---
 openleadr/client.py | 27 +++++++++++++++++----------
 1 file changed, 17 insertions(+), 10 deletions(-)

diff --git a/openleadr/client.py b/openleadr/client.py
index 8187b11..8a51bd0 100755
--- a/openleadr/client.py
+++ b/openleadr/client.py
@@ -894,16 +894,20 @@ class OpenADRClient:
             date_to = datetime.now(timezone.utc)
             date_from = date_to - max(report_back_duration, granularity)
             for r_id in report_request['r_ids']:
-                report_callback = self.report_callbacks[(report_specifier_id, r_id)]
-                result = report_callback(date_from=date_from,
-                                         date_to=date_to,
-                                         sampling_interval=granularity)
-                if asyncio.iscoroutine(result):
-                    result = await result
-                for dt, value in result:
-                    report_payload = objects.ReportPayload(r_id=r_id, value=value)
-                    intervals.append(objects.ReportInterval(dtstart=dt,
-                                                            report_payload=report_payload))
+                try:
+                    report_callback = self.report_callbacks[(report_specifier_id, r_id)]
+                    result = report_callback(date_from=date_from,
+                                             date_to=date_to,
+                                             sampling_interval=granularity)
+                    if asyncio.iscoroutine(result):
+                        result = await result
+                    for dt, value in result:
+                        report_payload = objects.ReportPayload(r_id=r_id, value=value)
+                        intervals.append(objects.ReportInterval(dtstart=dt,
+                                                                report_payload=report_payload))
+                except Exception as err:
+                    logger.error(f"The callback for r_id {r_id} in report with report_specifier_id {report_specifier_id} "
+                                 f"encountered an error: {err.__class__.__name__}: {err}")
 
         else:
             for r_id in report_request['r_ids']:
@@ -926,6 +930,9 @@ class OpenADRClient:
                                                                     report_payload=report_payload))
                 except KeyError:
                     logger.error(f"No callback found for r_id {r_id} in report with report_specifier_id {report_specifier_id}")
+                except Exception as err:
+                    logger.error(f"The callback for r_id {r_id} in report with report_specifier_id {report_specifier_id} "
+                                 f"encountered an error: {err.__class__.__name__}: {err}")
         outgoing_report.intervals = intervals
         logger.info(f"The number of intervals in the report is now {len(outgoing_report.intervals)}")
 
-- 
2.43.0


From 92218d3b5c270023ac15e16f1de318c10fec1773 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:37:25 +0000
Subject: [PATCH 44/78] fix: stop sampling a report as soon as it is cancelled

---
 openleadr/client.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/openleadr/client.py b/openleadr/client.py
index 8a51bd0..bbddc83 100755
--- a/openleadr/client.py
+++ b/openleadr/client.py
@@ -964,14 +964,15 @@ class OpenADRClient:
         report_request_id = payload['report_request_id']
         report_request = utils.find_by(self.report_requests, 'report_request_id', report_request_id)
         if report_request:
+            if report_request['job']:
+                report_request['job'].remove()
+                report_request['job'] = None
             if len(report_request['r_ids']) > 0:
                 # Update the report one last time before cancelling
                 logging.info(f"Updating one last time report with report_request_id {report_request_id}")
                 await self.update_report(report_request_id)
                 # Wait for the report to be sent
                 await asyncio.sleep(1)
-            if report_request['job']:
-                report_request['job'].remove()
             logger.info(f"Report with report_request_id {report_request_id} has been cancelled.")
             service = 'EiReport'
             message_type = 'oadrCanceledReport'
-- 
2.43.0


From d365be14f2d7303eef49a90c0b7add7da7c7dc95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:37:25 +0000
Subject: [PATCH 45/78] fix: ignore an oadrUpdateReport from the VTN instead of
 failing on it

---
 openleadr/client.py | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/openleadr/client.py b/openleadr/client.py
index bbddc83..4fc73a9 100755
--- a/openleadr/client.py
+++ b/openleadr/client.py
@@ -1307,9 +1307,6 @@ class OpenADRClient:
             if 'events' in response_payload and len(response_payload['events']) > 0:
                 await self._on_event(response_payload)
 
-        elif response_type == 'oadrUpdateReport':
-            await self._on_report(response_payload)
-
         elif response_type == 'oadrCreateReport':
             if 'report_requests' in response_payload:
                 await self.create_report(response_payload)
-- 
2.43.0


From fb92924fa8f82f388bbfabda799d6b3c45ee6fd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:37:25 +0000
Subject: [PATCH 46/78] fix: skip data points without measurement that are
 requested with one

---
 openleadr/client.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/openleadr/client.py b/openleadr/client.py
index 4fc73a9..f1cf012 100755
--- a/openleadr/client.py
+++ b/openleadr/client.py
@@ -779,6 +779,10 @@ class OpenADRClient:
                         # Check if the requested measurement exists and if the correct unit is requested
                         if 'measurement' in specifier_payload:
                             measurement = specifier_payload['measurement']
+                            if rd.measurement is None:
+                                logger.error(f"A measurement was given by the VTN for report with report_request_id "
+                                             f"{report_request_id} and r_id {r_id}, which does not offer one.")
+                                continue
                             if measurement['description'] != rd.measurement.description:
                                 logger.error(f"A non-matching measurement description for report with "
                                             f"report_request_id {report_request_id} and r_id {r_id} was given "
-- 
2.43.0


From a8c03702fe944a7cee8baca02a0aef9cb35b3f0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:37:25 +0000
Subject: [PATCH 47/78] fix: stop sending reports when the registration is
 cancelled

---
 openleadr/client.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/openleadr/client.py b/openleadr/client.py
index f1cf012..cb809ae 100755
--- a/openleadr/client.py
+++ b/openleadr/client.py
@@ -529,6 +529,8 @@ class OpenADRClient:
             self.report_requests = None
             self.incomplete_reports = None
             self.pending_reports = None
+            if self.report_queue_task:
+                self.report_queue_task.cancel()
             self.scheduler.remove_all_jobs()
         else:
             logger.warning("The VEN couldn't cancel the registration")
@@ -1084,6 +1086,8 @@ class OpenADRClient:
         self.report_requests = None
         self.incomplete_reports = None
         self.pending_reports = None
+        if self.report_queue_task:
+            self.report_queue_task.cancel()
         self.scheduler.remove_all_jobs()
 
         message = self._create_message('oadrCanceledPartyRegistration', response=response, ven_id=self.ven_id, registration_id=self.registration_id)
-- 
2.43.0


From ae65c565be2ab7e6605c1a67b85138307c890a79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:37:25 +0000
Subject: [PATCH 48/78] fix: a VEN without venID is not registered

---
 openleadr/client.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/openleadr/client.py b/openleadr/client.py
index cb809ae..518bcb9 100755
--- a/openleadr/client.py
+++ b/openleadr/client.py
@@ -475,6 +475,8 @@ class OpenADRClient:
         else:
             logger.error("No venID received from the VTN during registration. "
                          "Will assume that we are not or no longer registered.")
+            if not self.ven_id:
+                self.registration_id = None
 
         if self.registration_id:
             self.poll_frequency = response_payload.get('requested_oadr_poll_freq',
-- 
2.43.0


From a9684dedb08acb8868c870b27a412d080d34fe01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:37:25 +0000
Subject: [PATCH 49/78] fix: answer a one-off report request whose interval has
 already started

---
 openleadr/client.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/openleadr/client.py b/openleadr/client.py
index 518bcb9..489ccd3 100755
--- a/openleadr/client.py
+++ b/openleadr/client.py
@@ -850,7 +850,8 @@ class OpenADRClient:
                         report_callback = partial(self.update_report, report_request_id=report_request_id)
 
                         if 'report_interval' in report_request['report_specifier']:
-                            self.scheduler.add_job(report_callback, 'date', run_date=report_request['report_specifier']['report_interval']['dtstart'])
+                            self.scheduler.add_job(report_callback, 'date', run_date=report_request['report_specifier']['report_interval']['dtstart'],
+                                                   misfire_grace_time=None)
                         else:
                             await report_callback()
         
-- 
2.43.0


From 5ce368ffba9d38b6f50985ffb5b0db5d15b544be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:38:08 +0000
Subject: [PATCH 50/78] fix: collect the values of a 'full' report once per
 reporting interval

---
 openleadr/client.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/openleadr/client.py b/openleadr/client.py
index 489ccd3..455aaa0 100755
--- a/openleadr/client.py
+++ b/openleadr/client.py
@@ -830,6 +830,9 @@ class OpenADRClient:
                         callback = partial(self.update_report, report_request_id=report_request_id)
                         
                         reporting_interval = granularity or report_back_duration
+                        if report.data_collection_mode == 'full':
+                            # The callback provides all the values of a reporting interval at once
+                            reporting_interval = max(reporting_interval, report_back_duration)
                         job = self.scheduler.add_job(func=callback,
                                                     trigger='cron',
                                                     **utils.cron_config(reporting_interval))
-- 
2.43.0


From 728386b86cd294da77ad8e5b37876e1dbc34c203 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:38:08 +0000
Subject: [PATCH 51/78] fix: sample once per interval if the interval does not
 fit in a minute, hour or day

---
 openleadr/client.py |  3 +--
 openleadr/utils.py  | 16 ++++++++++++++++
 2 files changed, 17 insertions(+), 2 deletions(-)

diff --git a/openleadr/client.py b/openleadr/client.py
index 455aaa0..9d9ead1 100755
--- a/openleadr/client.py
+++ b/openleadr/client.py
@@ -834,8 +834,7 @@ class OpenADRClient:
                             # The callback provides all the values of a reporting interval at once
                             reporting_interval = max(reporting_interval, report_back_duration)
                         job = self.scheduler.add_job(func=callback,
-                                                    trigger='cron',
-                                                    **utils.cron_config(reporting_interval))
+                                                    **utils.interval_trigger(reporting_interval))
                         self.report_requests.append({'report_request_id': report_request_id,
                                                     'report_specifier_id': report_specifier_id,
                                                     'report_back_duration': report_back_duration,
diff --git a/openleadr/utils.py b/openleadr/utils.py
index 088194b..1ca54a5 100755
--- a/openleadr/utils.py
+++ b/openleadr/utils.py
@@ -501,6 +501,22 @@ def pop_by(list_, key, value, *args):
     return item
 
 
+def interval_trigger(interval):
+    """
+    Returns a dict with the trigger settings for a job that runs once every interval. It runs in
+    step with the clock if the interval fits an exact number of times in a minute, an hour or a day.
+    """
+    if interval < timedelta(minutes=1):
+        unit, period = timedelta(seconds=1), timedelta(minutes=1)
+    elif interval < timedelta(hours=1):
+        unit, period = timedelta(minutes=1), timedelta(hours=1)
+    else:
+        unit, period = timedelta(hours=1), timedelta(days=1)
+    if not interval % unit and not period % interval:
+        return {'trigger': 'cron', **cron_config(interval)}
+    return {'trigger': 'interval', 'seconds': interval.total_seconds()}
+
+
 def cron_config(interval, randomize_seconds=False):
     """
     Returns a dict with cron settings for the given interval
-- 
2.43.0


From 08069b0b07dac5936291e05a3607b0b24cee7141 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:38:08 +0000
Subject: [PATCH 52/78] fix: a repeated report request replaces the earlier one

---
 openleadr/client.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/openleadr/client.py b/openleadr/client.py
index 9d9ead1..a0f1b12 100755
--- a/openleadr/client.py
+++ b/openleadr/client.py
@@ -755,6 +755,13 @@ class OpenADRClient:
                 report_back_duration = report_request['report_specifier'].get('report_back_duration')
                 granularity = report_request['report_specifier']['granularity']
 
+                # A repeated request replaces the earlier one
+                earlier_request = utils.pop_by(self.report_requests, 'report_request_id', report_request_id)
+                if earlier_request:
+                    if earlier_request['job']:
+                        earlier_request['job'].remove()
+                    self.incomplete_reports.pop(report_request_id, None)
+
                 # Check if this report actually exists
                 report = utils.find_by(self.reports, 'report_specifier_id', report_specifier_id)
                 if not report:
-- 
2.43.0


From 941158175efe7ec2bb85481a6f949ddbc2ca1ab8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:38:08 +0000
Subject: [PATCH 53/78] fix: follow the polling interval that the VTN asks for
 on re-registration

---
 openleadr/client.py | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/openleadr/client.py b/openleadr/client.py
index a0f1b12..78a2f58 100755
--- a/openleadr/client.py
+++ b/openleadr/client.py
@@ -93,6 +93,7 @@ class OpenADRClient:
         self.scheduler = AsyncIOScheduler(timezone=str(tzlocal.get_localzone()))
         self.client_session = None
         self.report_queue_task = None
+        self.poll_job = None
 
         self.opts = []
         self.received_events = []               # Holds the events that we received.
@@ -164,14 +165,9 @@ class OpenADRClient:
         await self._poll()
 
         # Set up automatic polling
-        if self.poll_frequency > timedelta(hours=24):
-            logger.warning("Polling with intervals of more than 24 hours is not supported. "
-                           "Will use 24 hours as the polling interval.")
-            self.poll_frequency = timedelta(hours=24)
-
-        self.scheduler.add_job(self._poll,
-                               trigger='interval',
-                               seconds=self.poll_frequency.total_seconds())
+        self.poll_job = self.scheduler.add_job(self._poll,
+                                               trigger='interval',
+                                               seconds=self.poll_frequency.total_seconds())
         self.scheduler.add_job(self._event_status_log,
                                trigger='interval',
                                seconds=self.event_status_log_period)
@@ -481,6 +477,10 @@ class OpenADRClient:
         if self.registration_id:
             self.poll_frequency = response_payload.get('requested_oadr_poll_freq',
                                                        timedelta(seconds=10))
+            if self.poll_frequency > timedelta(hours=24):
+                logger.warning("Polling with intervals of more than 24 hours is not supported. "
+                               "Will use 24 hours as the polling interval.")
+                self.poll_frequency = timedelta(hours=24)
             logger.info(f"VEN is now registered with registration ID {self.registration_id} and venID {self.ven_id}.")
             logger.info(f"The polling frequency is {self.poll_frequency}")
         return response_type, response_payload
@@ -499,6 +499,10 @@ class OpenADRClient:
             await self.stop()
             return
 
+        # The VTN may have asked for another polling interval
+        if self.poll_job and self.poll_job.trigger.interval != self.poll_frequency:
+            self.poll_job.reschedule('interval', seconds=self.poll_frequency.total_seconds())
+
         await self.register_reports(self.reports)
         if self.reports and not self.report_queue_task:
             self.report_queue_task = self.loop.create_task(self._report_queue_worker())
-- 
2.43.0


From 186233b665db1a36e017eb08b198a79699ca7d5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:43:15 +0000
Subject: [PATCH 54/78] fix: ignore answers of another type to a registration
 request

---
 openleadr/client.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/openleadr/client.py b/openleadr/client.py
index 78a2f58..2b11e60 100755
--- a/openleadr/client.py
+++ b/openleadr/client.py
@@ -446,6 +446,9 @@ class OpenADRClient:
         response_type, response_payload = await self._perform_request(service, message)
         if response_type is None:
             return
+        if response_type != 'oadrCreatedPartyRegistration':
+            logger.error(f"Got an unexpected {response_type} on Create Party Registration")
+            return
         if response_payload['response']['response_code'] != 200:
             status_code = response_payload['response']['response_code']
             status_description = response_payload['response']['response_description']
-- 
2.43.0


From 76b3e552dfd7fffdf82b916489fe8e645c886335 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:16:44 +0000
Subject: [PATCH 55/78] fix: recognise measurements that come after an item
 without one

---
 openleadr/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openleadr/utils.py b/openleadr/utils.py
index 1ca54a5..8cbc747 100755
--- a/openleadr/utils.py
+++ b/openleadr/utils.py
@@ -194,7 +194,7 @@ def normalize_dict(ordered_dict):
                         name, item = measurement, description.pop(measurement)
                         break
                 else:
-                    break
+                    continue
                 item['description'] = item.pop('item_description', None)
                 item['unit'] = item.pop('item_units', None)
                 if 'si_scale_code' in item:
-- 
2.43.0


From e9c93be5eadca6eb9b5c92afb24e51e13e5b5d9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:16:44 +0000
Subject: [PATCH 56/78] fix: recognise the measurement in a report request

---
 openleadr/utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/openleadr/utils.py b/openleadr/utils.py
index 8cbc747..9873d48 100755
--- a/openleadr/utils.py
+++ b/openleadr/utils.py
@@ -177,13 +177,13 @@ def normalize_dict(ordered_dict):
             d = d[key]
 
         # Plurarize some lists
-        elif key in ('report_request', 'report', 'specifier_payload'):
+        elif key in ('report_request', 'report'):
             if isinstance(d[key], list):
                 d[key + 's'] = d.pop(key)
             else:
                 d[key + 's'] = [d.pop(key)]
 
-        elif key in ('report_description', 'event_signal'):
+        elif key in ('report_description', 'event_signal', 'specifier_payload'):
             descriptions = d.pop(key)
             if not isinstance(descriptions, list):
                 descriptions = [descriptions]
-- 
2.43.0


From 4d4055fdefae8b3b2bd8b4d4a036669f5f1367b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:20:09 +0000
Subject: [PATCH 57/78] fix: do not start polling if the first poll ended the
 registration

---
 openleadr/client.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/openleadr/client.py b/openleadr/client.py
index 2b11e60..b47530b 100755
--- a/openleadr/client.py
+++ b/openleadr/client.py
@@ -164,6 +164,10 @@ class OpenADRClient:
         # Perform an initial poll
         await self._poll()
 
+        if not self.registration_id:
+            logger.warning("The registration was cancelled by the VTN, will not start polling.")
+            return
+
         # Set up automatic polling
         self.poll_job = self.scheduler.add_job(self._poll,
                                                trigger='interval',
-- 
2.43.0


From 277af45d7fffb345c0fe5a13984ae142be2a828b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:41:24 +0000
Subject: [PATCH 58/78] fix: ignore answers of another type to a registration
 query

---
 openleadr/client.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openleadr/client.py b/openleadr/client.py
index b47530b..17235cf 100755
--- a/openleadr/client.py
+++ b/openleadr/client.py
@@ -141,7 +141,7 @@ class OpenADRClient:
 
         request_id = None
         response_type, response_payload = await self.query_registration()
-        if 'registration_id' in response_payload:
+        if response_type == 'oadrCreatedPartyRegistration' and 'registration_id' in response_payload:
             self.registration_id = response_payload['registration_id']
         if response_payload and 'response' in response_payload  and 'request_id' in response_payload['response']:
             request_id = response_payload['response']['request_id']
-- 
2.43.0


From d5fc4deb52c8bdcdd38b3fe24d22ac321de59fb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:23:52 +0000
Subject: [PATCH 59/78] fix: drop the incomplete values of a cancelled report

---
 openleadr/client.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/openleadr/client.py b/openleadr/client.py
index 17235cf..a8808b8 100755
--- a/openleadr/client.py
+++ b/openleadr/client.py
@@ -1026,6 +1026,7 @@ class OpenADRClient:
                                             ven_id=self.ven_id,
                                             report_request_id=report_request_id)
             self.report_requests.remove(report_request)
+            self.incomplete_reports.pop(report_request_id, None)
             await self._perform_request(service, message)
         else:
             logger.error(f"Report with report_request_id {report_request_id} was not found.")
-- 
2.43.0


From 5d1c5ab64190cab4e656ba839c26b9bf7b7bce7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:02:19 +0000
Subject: [PATCH 60/78] fix: answer report messages without venID with an error
 instead of HTTP 500

---
 openleadr/service/report_service.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/openleadr/service/report_service.py b/openleadr/service/report_service.py
index 8d5f4c9..5c89f95 100644
--- a/openleadr/service/report_service.py
+++ b/openleadr/service/report_service.py
@@ -16,7 +16,7 @@
 
 from . import service, handler, VTNService
 from asyncio import iscoroutine
-from openleadr import objects, utils
+from openleadr import errors, objects, utils
 import logging
 import inspect
 logger = logging.getLogger('openleadr')
@@ -88,6 +88,9 @@ class ReportService(VTNService):
             # If the client does not send any reports, reply with an empty oadrRegisteredReport message.
             return 'oadrRegisteredReport', {'report_requests': []}
 
+        if 'ven_id' not in payload:
+            raise errors.InvalidIdError("The venID is missing.")
+
         for report in payload['reports']:
             if payload['ven_id'] not in self.registered_reports:
                 self.registered_reports[payload['ven_id']] = []
@@ -276,6 +279,8 @@ class ReportService(VTNService):
         """
         Handle the confirmation that a report was created.
         """
+        if 'ven_id' not in payload:
+            raise errors.InvalidIdError("The venID is missing.")
         if not hasattr(self, 'on_created_report'):
             logger.info(f"""VEN {payload['ven_id']} created reports with reportRequestIDs """
                         f"""'{"', '".join([r['request_id'] for r in payload['pending_reports']])}'.""")
@@ -304,6 +309,8 @@ class ReportService(VTNService):
 
     @handler('oadrRegisteredReport')
     async def registered_report(self, payload):
+        if 'ven_id' not in payload:
+            raise errors.InvalidIdError("The venID is missing.")
         if not hasattr(self, 'on_registered_report'):
             logger.info(f"VEN {payload['ven_id']} indicated that it has registered "
                         "your VTN-provided reports, but you are not handling that yet.")
-- 
2.43.0


From 27cfd33c24882f9246f7e351f2799cd0b3b731bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:02:27 +0000
Subject: [PATCH 61/78] fix: no venID 'None' in the answer to a cancellation
 without venID

---
 openleadr/templates/oadrCanceledPartyRegistration.xml | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/openleadr/templates/oadrCanceledPartyRegistration.xml b/openleadr/templates/oadrCanceledPartyRegistration.xml
index d31ba68..a5fd825 100644
--- a/openleadr/templates/oadrCanceledPartyRegistration.xml
+++ b/openleadr/templates/oadrCanceledPartyRegistration.xml
@@ -6,6 +6,8 @@
       <requestID xmlns="http://docs.oasis-open.org/ns/energyinterop/201110/payloads">{{ response.request_id }}</requestID>
     </ei:eiResponse>
     <ei:registrationID>{{ registration_id }}</ei:registrationID>
+    {% if ven_id is defined and ven_id is not none %}
     <ei:venID>{{ ven_id }}</ei:venID>
+    {% endif %}
   </oadr:oadrCanceledPartyRegistration>
 </oadr:oadrSignedObject>
\ No newline at end of file
-- 
2.43.0


From d9e031b1361fd76edba4dc808ef54eb919010408 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:04:29 +0000
Subject: [PATCH 62/78] fix: an unknown data point in a report request does not
 affect the others

---
 openleadr/service/report_service.py | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/openleadr/service/report_service.py b/openleadr/service/report_service.py
index 5c89f95..d46f4d5 100644
--- a/openleadr/service/report_service.py
+++ b/openleadr/service/report_service.py
@@ -166,7 +166,17 @@ class ReportService(VTNService):
                 continue
             # Leave out the data points that were declined or invalid
             report_request = [rrq for rrq in report_request if rrq is not None]
+            # Leave out the data points that do not exist in the offered report
+            report_descriptions = payload['reports'][i]['report_descriptions']
+            for rrq in report_request:
+                if utils.find_by(report_descriptions, 'r_id', rrq[0]) is None:
+                    logger.error(f"Your on_register_report handler requested r_id {rrq[0]}, which does not exist "
+                                 f"in the report with report_specifier_id {payload['reports'][i]['report_specifier_id']}.")
+            report_request = [rrq for rrq in report_request
+                              if utils.find_by(report_descriptions, 'r_id', rrq[0]) is not None]
             report_requests[i] = report_request
+            if not report_request:
+                continue
             # Check if all sampling rates per report_request are the same
             sampling_interval = min(rrq[2] for rrq in report_request if isinstance(rrq, tuple))
             if not all(rrq is not None and report_request[0][2] == sampling_interval for rrq in report_request):
@@ -193,19 +203,12 @@ class ReportService(VTNService):
                     r_id, callback, _, report_interval = rrq
 
                 report_description = utils.find_by(orig_report['report_descriptions'], 'r_id', r_id)
-                if report_description is None:
-                    logger.error(f"Your on_register_report handler requested r_id {r_id}, which does not exist "
-                                 f"in the report with report_specifier_id {report_specifier_id}.")
-                    continue
                 reading_type = report_description['reading_type']
                 specifier_payloads.append(objects.SpecifierPayload(r_id=r_id,
                                                                    reading_type=reading_type))
                 # Append the callback to our list of known callbacks
                 self.report_callbacks[(report_request_id, r_id)] = callback
 
-            if not specifier_payloads:
-                continue
-
             # Add the ReportSpecifier to the ReportRequest
             report_specifier = objects.ReportSpecifier(report_specifier_id=report_specifier_id,
                                                        granularity=sampling_interval,
-- 
2.43.0


From 6b4449b79c5bc1faa6ed34d7717a894097113ba9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:08:22 +0000
Subject: [PATCH 63/78] fix: accept offered reports without sampling rate or
 measurement

---
 openleadr/service/report_service.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/openleadr/service/report_service.py b/openleadr/service/report_service.py
index d46f4d5..25b81b9 100644
--- a/openleadr/service/report_service.py
+++ b/openleadr/service/report_service.py
@@ -106,8 +106,8 @@ class ReportService(VTNService):
                                                        measurement='Status',
                                                        unit=None,
                                                        scale=None,
-                                                       min_sampling_interval=rd['sampling_rate']['min_period'],
-                                                       max_sampling_interval=rd['sampling_rate']['max_period'])
+                                                       min_sampling_interval=rd.get('sampling_rate', {}).get('min_period'),
+                                                       max_sampling_interval=rd.get('sampling_rate', {}).get('max_period'))
                                for rd in report['report_descriptions']]
                     results = await utils.gather_if_required(results)
                 elif mode == 'full':
@@ -116,11 +116,11 @@ class ReportService(VTNService):
                 if mode == 'compact':
                     results = [self.on_register_report(ven_id=payload['ven_id'],
                                                        resource_id=rd.get('report_data_source', {}).get('resource_id'),
-                                                       measurement=rd['measurement']['description'],
-                                                       unit=rd['measurement']['unit'],
-                                                       scale=rd['measurement'].get('scale'),
-                                                       min_sampling_interval=rd['sampling_rate']['min_period'],
-                                                       max_sampling_interval=rd['sampling_rate']['max_period'])
+                                                       measurement=rd.get('measurement', {}).get('description'),
+                                                       unit=rd.get('measurement', {}).get('unit'),
+                                                       scale=rd.get('measurement', {}).get('scale'),
+                                                       min_sampling_interval=rd.get('sampling_rate', {}).get('min_period'),
+                                                       max_sampling_interval=rd.get('sampling_rate', {}).get('max_period'))
                                for rd in report['report_descriptions']]
                     results = await utils.gather_if_required(results)
                 elif mode == 'full':
-- 
2.43.0


From c5ba67bc0548821b1001a2b7d983234ca45c1213 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:16:55 +0000
Subject: [PATCH 64/78] fix: no request id 'None' in an oadrDistributeEvent
 that answers a poll

---
 openleadr/templates/oadrDistributeEvent.xml | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openleadr/templates/oadrDistributeEvent.xml b/openleadr/templates/oadrDistributeEvent.xml
index e7b6e7f..0b9148b 100644
--- a/openleadr/templates/oadrDistributeEvent.xml
+++ b/openleadr/templates/oadrDistributeEvent.xml
@@ -4,7 +4,7 @@
     <ei:eiResponse>
       <ei:responseCode>{{ response.response_code }}</ei:responseCode>
       <ei:responseDescription>{{ response.response_description }}</ei:responseDescription>
-      <requestID xmlns="http://docs.oasis-open.org/ns/energyinterop/201110/payloads">{{ response.request_id }}</requestID>
+      <requestID xmlns="http://docs.oasis-open.org/ns/energyinterop/201110/payloads">{% if response.request_id is not none %}{{ response.request_id }}{% endif %}</requestID>
     </ei:eiResponse>
     {% endif %}
     <requestID xmlns="http://docs.oasis-open.org/ns/energyinterop/201110/payloads">{{ request_id }}</requestID>
-- 
2.43.0


From 31afa4ae28b857b0a98145b8e6574562c48efdb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:29:53 +0000
Subject: [PATCH 65/78] fix: an event given as cancelled stays cancelled

---
 openleadr/objects.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/openleadr/objects.py b/openleadr/objects.py
index 450e946..3b93867 100644
--- a/openleadr/objects.py
+++ b/openleadr/objects.py
@@ -231,8 +231,9 @@ class Event:
                                  "but the two were not consistent with each other. "
                                  f"You supplied 'targets' = {self.targets} and "
                                  f"'targets_by_type' = {self.targets_by_type}")
-        # Set the event status
-        self.event_descriptor.event_status = utils.determine_event_status(self.active_period)
+        # Set the event status; a cancelled event stays cancelled
+        if self.event_descriptor.event_status != enums.EVENT_STATUS.CANCELLED:
+            self.event_descriptor.event_status = utils.determine_event_status(self.active_period)
 
 
 @dataclass
-- 
2.43.0


From f96ecb12f3821537138116a41f16b0a6158caf8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:41:06 +0000
Subject: [PATCH 66/78] fix: only trust the parts of a message that were signed

A valid signature may refer to another element than the oadrSignedObject that is used, and a
ReplayProtect other than the signed one (or a comment inside of it) made replays look new.
---
 openleadr/messaging.py | 30 ++++++++++++++++++++++++++++--
 1 file changed, 28 insertions(+), 2 deletions(-)

diff --git a/openleadr/messaging.py b/openleadr/messaging.py
index a812ec9..00666e2 100644
--- a/openleadr/messaging.py
+++ b/openleadr/messaging.py
@@ -109,8 +109,14 @@ def validate_xml_signature(xml_tree, cert_fingerprint=None):
             raise errors.FingerprintMismatch("The certificate fingerprint was incorrect. "
                                              f"Expected: {cert_fingerprint}; "
                                              f"Received: {fingerprint}. Ignoring message.")
-    VERIFIER.verify(xml_tree, x509_cert=utils.ensure_bytes(cert), expect_references=2)
-    _verify_replay_protect(xml_tree)
+    results = VERIFIER.verify(xml_tree, x509_cert=utils.ensure_bytes(cert), expect_references=2)
+    signed_parts = [result.signed_xml for result in results if result.signed_xml is not None]
+    _verify_signed_object(xml_tree, signed_parts)
+    # Only look at the ReplayProtect that was signed, there may be others in the message
+    replay_protects = [element for part in signed_parts for element in part.iter(f'{NS_DSP}ReplayProtect')]
+    if not replay_protects:
+        raise ValueError("Missing or malformed ReplayProtect element in the message signature.")
+    _verify_replay_protect(replay_protects[0])
 
 
 def validate_xml_signature_none(xml_tree):
@@ -172,6 +178,23 @@ async def authenticate_message(request, message_tree, message_payload,
                 raise errors.NotRegisteredOrAuthorizedError(msg)
 
 
+def _verify_signed_object(xml_tree, signed_parts):
+    """
+    Verify that the oadrSignedObject that we are going to use is the one that was signed. A valid
+    signature might refer to another element in the message.
+    """
+    def canonical(element):
+        return etree.tostring(element, method='c14n', exclusive=True, with_comments=False)
+
+    signed_object = xml_tree.find(f'{NS_OADR}oadrSignedObject')
+    for part in signed_parts:
+        if part.tag == f'{NS_OADR}oadrPayload':
+            part = part.find(f'{NS_OADR}oadrSignedObject')
+        if signed_object is not None and part is not None and canonical(part) == canonical(signed_object):
+            return
+    raise ValueError("The message signature does not cover the contents of the message.")
+
+
 def _create_replay_protect():
     dt_element = Element("{http://openadr.org/oadr-2.0b/2012/07/xmldsig-properties}timestamp")
     dt_element.text = utils.datetimeformat(datetime.now(timezone.utc))
@@ -211,6 +234,9 @@ def _update_nonce_cache(timestamp, nonce):
             NONCE_CACHE.remove((timestamp, nonce))
 
 
+NS_OADR = "{http://openadr.org/oadr-2.0b/2012/07}"
+NS_DSP = "{http://openadr.org/oadr-2.0b/2012/07/xmldsig-properties}"
+
 # Replay protect settings
 REPLAY_PROTECT_MAX_TIME_DELTA = timedelta(seconds=5)
 NONCE_CACHE = set()
-- 
2.43.0


From 5ef0c5cd8c17165c8acc39ca43483b79e668195a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:28:58 +0000
Subject: [PATCH 67/78] fix: put all targets of an opt in the one eiTarget that
 the schema allows

---
 openleadr/templates/oadrCreateOpt.xml | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/openleadr/templates/oadrCreateOpt.xml b/openleadr/templates/oadrCreateOpt.xml
index f62e592..cf6ac9b 100644
--- a/openleadr/templates/oadrCreateOpt.xml
+++ b/openleadr/templates/oadrCreateOpt.xml
@@ -32,9 +32,9 @@
     </ei:qualifiedEventID>
     {% endif %}
     {% if targets is defined and targets is not none and targets|length > 0 %}
-    {% for target in targets %}
-    {% include 'parts/eiTarget.xml' %}
-    {% endfor %}
+    {% with event = {'targets': targets} %}
+    {% include 'parts/eiEventTarget.xml' %}
+    {% endwith %}
     {% else %}
     <ei:eiTarget/>
     {% endif %}
-- 
2.43.0


From 709c06ab2a5bd1c2d57500f2a23ee7ebe175a206 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:28:59 +0000
Subject: [PATCH 68/78] fix: only take a positive answer for the
 acknowledgement of an opt

---
 openleadr/client.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/openleadr/client.py b/openleadr/client.py
index a8808b8..cea1f1f 100755
--- a/openleadr/client.py
+++ b/openleadr/client.py
@@ -656,7 +656,7 @@ class OpenADRClient:
         response_type, response_payload = await self._perform_request(service, message)
         logger.info(response_type, response_payload)
 
-        if 'opt_id' in response_payload:
+        if response_type == 'oadrCreatedOpt' and response_payload['response']['response_code'] == 200:
             # VTN acknowledged the opt message
             logging.info(f"VTN acknowledged the opt message with opt_id {response_payload['opt_id']}")
             return response_payload['opt_id']
@@ -691,9 +691,9 @@ class OpenADRClient:
         response_type, response_payload = await self._perform_request(service, message)
         logger.info(response_type, response_payload)
 
-        if 'opt_id' in response_payload:
+        if response_type == 'oadrCanceledOpt' and response_payload['response']['response_code'] == 200:
             # VTN acknowledged the opt cancelation
-            logging.info(f"VTN acknowledged the opt cancelation with opt_id {response_payload['opt_id']}")
+            logging.info(f"VTN acknowledged the opt cancelation with opt_id {opt_id}")
             self.opts.remove(opt)
             return True
         else:
-- 
2.43.0


From a5b11bd86c9b6eee7e945ce32d880f6abbbd1c94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:28:59 +0000
Subject: [PATCH 69/78] fix: do not keep an opt that could not be put in a
 message

---
 openleadr/client.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openleadr/client.py b/openleadr/client.py
index cea1f1f..085f20d 100755
--- a/openleadr/client.py
+++ b/openleadr/client.py
@@ -641,7 +641,6 @@ class OpenADRClient:
             market_context=market_context,
             signal_target_mrid=signal_target_mrid
         )
-        self.opts.append(opt)
 
         # Send opt
         request_id = request_id or utils.generate_id()
@@ -653,6 +652,7 @@ class OpenADRClient:
 
         service = 'EiOpt'
         message = self._create_message('oadrCreateOpt', **payload)
+        self.opts.append(opt)
         response_type, response_payload = await self._perform_request(service, message)
         logger.info(response_type, response_payload)
 
-- 
2.43.0


From 8b1c7d0b2c60cc2f5c6730e51bf671c833302b48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:38:49 +0000
Subject: [PATCH 70/78] fix: do not interpret a group name as a number or
 boolean

---
 openleadr/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openleadr/utils.py b/openleadr/utils.py
index 9873d48..12ac870 100755
--- a/openleadr/utils.py
+++ b/openleadr/utils.py
@@ -97,7 +97,7 @@ def normalize_dict(ordered_dict):
             d[key] = parse_datetime(value)
         elif isinstance(value, str) and key in ("event_id", "ven_id", "registration_id", "r_id", "report_specifier_id",
                                                 "resource_id", "group_id", "party_id", "opt_id", "signal_id",
-                                                "ven_name", "vtn_comment", "market_context"):
+                                                "ven_name", "vtn_comment", "market_context", "group_name"):
             # Identifiers and descriptions are text, also if they look like a number or boolean
             d[key] = value
         elif value in ('true', 'false'):
-- 
2.43.0


From ff14b7f466361479c3266a6404ce4c6d29b084f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:40:45 +0000
Subject: [PATCH 71/78] fix: repeat request ids as they were received

---
 openleadr/utils.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/openleadr/utils.py b/openleadr/utils.py
index 12ac870..1ef1c94 100755
--- a/openleadr/utils.py
+++ b/openleadr/utils.py
@@ -97,9 +97,13 @@ def normalize_dict(ordered_dict):
             d[key] = parse_datetime(value)
         elif isinstance(value, str) and key in ("event_id", "ven_id", "registration_id", "r_id", "report_specifier_id",
                                                 "resource_id", "group_id", "party_id", "opt_id", "signal_id",
-                                                "ven_name", "vtn_comment", "market_context", "group_name"):
+                                                "ven_name", "vtn_comment", "market_context", "group_name", "vtn_id"):
             # Identifiers and descriptions are text, also if they look like a number or boolean
             d[key] = value
+        elif isinstance(value, str) and key in ("request_id", "report_request_id") \
+                and not re.match(r'^(0|-?[1-9]\d*)$', value):
+            # These are repeated in the answer, so only a number that is written the same way again may be a number
+            d[key] = value
         elif value in ('true', 'false'):
             d[key] = parse_boolean(value)
         elif isinstance(value, str):
-- 
2.43.0


From 2b0780b11665437d38dd4551673f8fba3f633316 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:39:49 +0000
Subject: [PATCH 72/78] fix: report with naive and aware time stamps of values
 mixed

The start of a report is the earliest time stamp of its values. Comparing naive with aware
time stamps raises, which lost the values of all data points of the report. Naive time stamps
are taken to be local, as they are when the report is sent.
---
 openleadr/client.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/openleadr/client.py b/openleadr/client.py
index 085f20d..4049790 100755
--- a/openleadr/client.py
+++ b/openleadr/client.py
@@ -967,7 +967,8 @@ class OpenADRClient:
 
         # Always set the dtstart of the report to the earliest datetime of any of the intervals
         if outgoing_report.intervals:
-            outgoing_report.dtstart = min(interval.dtstart for interval in outgoing_report.intervals)
+            outgoing_report.dtstart = min(interval.dtstart.astimezone(timezone.utc)
+                                          for interval in outgoing_report.intervals)
 
         # Figure out if the report is complete after this sampling
         if data_collection_mode == 'incremental' and report_back_duration is not None\
-- 
2.43.0


From 6df1ed02e333bcf246c5c1128b5a7ab5c0308b3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:52:10 +0000
Subject: [PATCH 73/78] fix: events that cannot be put in a valid message are
 refused

They were accepted, and from then on every poll of that VEN was answered with an HTTP error or
an invalid message, so that it did not get its other events either.
---
 openleadr/server.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/openleadr/server.py b/openleadr/server.py
index b540b1a..a8023a5 100755
--- a/openleadr/server.py
+++ b/openleadr/server.py
@@ -15,9 +15,10 @@
 # limitations under the License.
 
 from aiohttp import web
+from copy import deepcopy
 from openleadr.service import EventService, PollService, RegistrationService, ReportService, \
                               VTNService
-from openleadr.messaging import create_message
+from openleadr.messaging import create_message, validate_xml_schema
 from openleadr import objects, enums, utils
 from functools import partial
 from datetime import datetime, timedelta, timezone
@@ -294,9 +295,6 @@ class OpenADRServer:
                                      "your 'callback' handler.")
 
         event_id = utils.getmember(event, 'event_descriptor.event_id')
-        # Create the event queue if it does not exist yet
-        if ven_id not in self.events:
-            self.events[ven_id] = []
 
         # Add some default properties to the event if they are not already set
         if not utils.getmember(event, 'event_descriptor.event_status', None):
@@ -309,7 +307,15 @@ class OpenADRServer:
         if not utils.getmember(event, 'event_descriptor.priority', None):
             utils.setmember(event, 'event_descriptor.priority', 0)
 
+        # An event that cannot be sent would block all other events for this VEN
+        validate_xml_schema(create_message('oadrDistributeEvent',
+                                           vtn_id=self.services['event_service'].vtn_id,
+                                           request_id=utils.generate_id(),
+                                           events=[deepcopy(event)]))
+
         # Add event to the queue
+        if ven_id not in self.events:
+            self.events[ven_id] = []
         self.events[ven_id].append(event)
         self.events_updated[ven_id] = True
 
-- 
2.43.0


From 74d4b8a67a74bb83602a518a34168a29a5060b9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:55:35 +0000
Subject: [PATCH 74/78] fix: values that are no finite number, and booleans, in
 reports

They were written as Python does ('nan', 'inf', 'True'), which is not valid, so that the VTN
refused the whole report and the values of the other data points were lost.
---
 openleadr/messaging.py                      |  1 +
 openleadr/templates/oadrUpdateReport.xml    |  2 +-
 openleadr/templates/parts/eiEventSignal.xml |  2 +-
 openleadr/utils.py                          | 12 ++++++++++++
 4 files changed, 15 insertions(+), 2 deletions(-)

diff --git a/openleadr/messaging.py b/openleadr/messaging.py
index 00666e2..35f89e8 100644
--- a/openleadr/messaging.py
+++ b/openleadr/messaging.py
@@ -246,6 +246,7 @@ TEMPLATES = Environment(loader=PackageLoader('openleadr', 'templates'), autoesca
 TEMPLATES.filters['datetimeformat'] = utils.datetimeformat
 TEMPLATES.filters['timedeltaformat'] = utils.timedeltaformat
 TEMPLATES.filters['booleanformat'] = utils.booleanformat
+TEMPLATES.filters['floatformat'] = utils.floatformat
 TEMPLATES.trim_blocks = True
 TEMPLATES.lstrip_blocks = True
 
diff --git a/openleadr/templates/oadrUpdateReport.xml b/openleadr/templates/oadrUpdateReport.xml
index 1d511dd..85bd399 100644
--- a/openleadr/templates/oadrUpdateReport.xml
+++ b/openleadr/templates/oadrUpdateReport.xml
@@ -31,7 +31,7 @@
             <ei:accuracy>{{ interval.report_payload.accuracy }}</ei:accuracy>
             {% endif %}
             <ei:payloadFloat>
-              <ei:value>{{ interval.report_payload.value }}</ei:value>
+              <ei:value>{{ interval.report_payload.value|floatformat }}</ei:value>
             </ei:payloadFloat>
             {% if interval.report_payload.data_quality is defined and interval.report_payload.data_quality is not none %}
             <oadr:oadrDataQuality>{{ interval.report_payload.data_quality }}</oadr:oadrDataQuality>
diff --git a/openleadr/templates/parts/eiEventSignal.xml b/openleadr/templates/parts/eiEventSignal.xml
index 9453edd..a9e5429 100644
--- a/openleadr/templates/parts/eiEventSignal.xml
+++ b/openleadr/templates/parts/eiEventSignal.xml
@@ -17,7 +17,7 @@
             </uid>
             <ei:signalPayload>
                 <ei:payloadFloat>
-                    <ei:value>{{ interval.signal_payload }}</ei:value>
+                    <ei:value>{{ interval.signal_payload|floatformat }}</ei:value>
                 </ei:payloadFloat>
             </ei:signalPayload>
         </ei:interval>
diff --git a/openleadr/utils.py b/openleadr/utils.py
index 1ef1c94..c7098ce 100755
--- a/openleadr/utils.py
+++ b/openleadr/utils.py
@@ -23,6 +23,7 @@ import os
 import re
 import ssl
 import hashlib
+import math
 import uuid
 import logging
 
@@ -372,6 +373,17 @@ def booleanformat(value):
         raise ValueError(f"A boolean value must be provided, not {value}.")
 
 
+def floatformat(value):
+    """
+    Format a number as an XML Schema float.
+    """
+    if isinstance(value, bool):
+        return int(value)
+    if isinstance(value, float) and not math.isfinite(value):
+        return 'NaN' if math.isnan(value) else 'INF' if value > 0 else '-INF'
+    return value
+
+
 def ensure_bytes(obj):
     """
     Converts a utf-8 str object to bytes.
-- 
2.43.0


From 81216bf345f4225f855b90c4e64025275cd7b7f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:06:19 +0000
Subject: [PATCH 75/78] fix: descriptions and units of measurements, and
 transport addresses, that look like numbers

---
 openleadr/utils.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/openleadr/utils.py b/openleadr/utils.py
index c7098ce..f4d2730 100755
--- a/openleadr/utils.py
+++ b/openleadr/utils.py
@@ -98,7 +98,9 @@ def normalize_dict(ordered_dict):
             d[key] = parse_datetime(value)
         elif isinstance(value, str) and key in ("event_id", "ven_id", "registration_id", "r_id", "report_specifier_id",
                                                 "resource_id", "group_id", "party_id", "opt_id", "signal_id",
-                                                "ven_name", "vtn_comment", "market_context", "group_name", "vtn_id"):
+                                                "ven_name", "vtn_comment", "market_context", "group_name", "vtn_id",
+                                                "item_description", "item_units", "description", "unit",
+                                                "transport_address"):
             # Identifiers and descriptions are text, also if they look like a number or boolean
             d[key] = value
         elif isinstance(value, str) and key in ("request_id", "report_request_id") \
-- 
2.43.0


From 03f040dce56cd3f8244778dfe89557aec46cda1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:06:19 +0000
Subject: [PATCH 76/78] fix: hooks of the VTN that are plain functions or that
 fail

---
 openleadr/hooks.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/openleadr/hooks.py b/openleadr/hooks.py
index 155e071..f1dfedf 100644
--- a/openleadr/hooks.py
+++ b/openleadr/hooks.py
@@ -15,6 +15,9 @@
 # limitations under the License.
 
 import asyncio
+import logging
+
+logger = logging.getLogger('openleadr')
 
 HOOKS = {'before_parse': [],
          'before_handle': [],
@@ -35,4 +38,10 @@ def register(hook_point, callback):
 def call(hook_point, *args, **kwargs):
     loop = asyncio.get_event_loop()
     for hook in HOOKS.get(hook_point, []):
-        loop.create_task(hook(*args, **kwargs))
+        try:
+            result = hook(*args, **kwargs)
+            if asyncio.iscoroutine(result):
+                loop.create_task(result)
+        except Exception as err:
+            logger.error(f"An error occurred while executing your '{hook_point}' hook {hook}: "
+                         f"{err.__class__.__name__}: {err}")
-- 
2.43.0


From 770369d0fde99a00dc507d1d9082984433423913 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:06:31 +0000
Subject: [PATCH 77/78] fix: send targets that are nodes or assets, and those
 of signals

---
 openleadr/templates/parts/eiEventSignal.xml | 13 +++++-
 openleadr/templates/parts/eiEventTarget.xml | 49 +++++++++++++++++++++
 openleadr/utils.py                          |  9 ++--
 3 files changed, 67 insertions(+), 4 deletions(-)

diff --git a/openleadr/templates/parts/eiEventSignal.xml b/openleadr/templates/parts/eiEventSignal.xml
index a9e5429..8980e98 100644
--- a/openleadr/templates/parts/eiEventSignal.xml
+++ b/openleadr/templates/parts/eiEventSignal.xml
@@ -23,6 +23,17 @@
         </ei:interval>
     {% endfor %}
     </strm:intervals>
+    {% if event_signal.targets is defined and event_signal.targets %}
+    <ei:eiTarget>
+    {% for target in event_signal.targets %}
+        {% if target.end_device_asset %}
+            <power:endDeviceAsset xmlns:power="http://docs.oasis-open.org/ns/emix/2011/06/power">
+                <power:mrid>{{ target.end_device_asset.mrid }}</power:mrid>
+            </power:endDeviceAsset>
+        {% endif %}
+    {% endfor %}
+    </ei:eiTarget>
+    {% endif %}
     <ei:signalName>{{ event_signal.signal_name }}</ei:signalName>
     <ei:signalType>{{ event_signal.signal_type }}</ei:signalType>
     <ei:signalID>{{ event_signal.signal_id }}</ei:signalID>
@@ -30,7 +41,7 @@
     {% if event_signal.current_value is defined and event_signal.current_value is not none %}
     <ei:currentValue>
         <ei:payloadFloat>
-            <ei:value>{{ event_signal.current_value }}</ei:value>
+            <ei:value>{{ event_signal.current_value|floatformat }}</ei:value>
         </ei:payloadFloat>
     </ei:currentValue>
     {% endif %}
diff --git a/openleadr/templates/parts/eiEventTarget.xml b/openleadr/templates/parts/eiEventTarget.xml
index 883d68c..921075a 100644
--- a/openleadr/templates/parts/eiEventTarget.xml
+++ b/openleadr/templates/parts/eiEventTarget.xml
@@ -7,6 +7,55 @@
         {% endif %}
     {% endfor %}
 
+    {% for target in event.targets %}
+        {% if target.aggregated_p_node %}
+            <power:aggregatedPnode xmlns:power="http://docs.oasis-open.org/ns/emix/2011/06/power">
+                <power:node>{{ target.aggregated_p_node.node }}</power:node>
+            </power:aggregatedPnode>
+        {% endif %}
+    {% endfor %}
+
+    {% for target in event.targets %}
+        {% if target.end_device_asset %}
+            <power:endDeviceAsset xmlns:power="http://docs.oasis-open.org/ns/emix/2011/06/power">
+                <power:mrid>{{ target.end_device_asset.mrid }}</power:mrid>
+            </power:endDeviceAsset>
+        {% endif %}
+    {% endfor %}
+
+    {% for target in event.targets %}
+        {% if target.meter_asset %}
+            <power:meterAsset xmlns:power="http://docs.oasis-open.org/ns/emix/2011/06/power">
+                <power:mrid>{{ target.meter_asset.mrid }}</power:mrid>
+            </power:meterAsset>
+        {% endif %}
+    {% endfor %}
+
+    {% for target in event.targets %}
+        {% if target.p_node %}
+            <power:pnode xmlns:power="http://docs.oasis-open.org/ns/emix/2011/06/power">
+                <power:node>{{ target.p_node.node }}</power:node>
+            </power:pnode>
+        {% endif %}
+    {% endfor %}
+
+    {% for target in event.targets %}
+        {% if target.service_delivery_point %}
+            <power:serviceDeliveryPoint xmlns:power="http://docs.oasis-open.org/ns/emix/2011/06/power">
+                <power:node>{{ target.service_delivery_point.node }}</power:node>
+            </power:serviceDeliveryPoint>
+        {% endif %}
+    {% endfor %}
+
+    {% for target in event.targets %}
+        {% if target.transport_interface %}
+            <power:transportInterface xmlns:power="http://docs.oasis-open.org/ns/emix/2011/06/power">
+                <power:pointOfReceipt>{{ target.transport_interface.point_of_receipt }}</power:pointOfReceipt>
+                <power:pointOfDelivery>{{ target.transport_interface.point_of_delivery }}</power:pointOfDelivery>
+            </power:transportInterface>
+        {% endif %}
+    {% endfor %}
+
     {% for target in event.targets %}
         {% if target.group_id %}
             <ei:groupID>{{ target.group_id }}</ei:groupID>
diff --git a/openleadr/utils.py b/openleadr/utils.py
index f4d2730..1aecb60 100755
--- a/openleadr/utils.py
+++ b/openleadr/utils.py
@@ -100,7 +100,8 @@ def normalize_dict(ordered_dict):
                                                 "resource_id", "group_id", "party_id", "opt_id", "signal_id",
                                                 "ven_name", "vtn_comment", "market_context", "group_name", "vtn_id",
                                                 "item_description", "item_units", "description", "unit",
-                                                "transport_address"):
+                                                "transport_address",
+                                                "mrid", "node", "point_of_receipt", "point_of_delivery"):
             # Identifiers and descriptions are text, also if they look like a number or boolean
             d[key] = value
         elif isinstance(value, str) and key in ("request_id", "report_request_id") \
@@ -130,10 +131,12 @@ def normalize_dict(ordered_dict):
             new_targets = []
             if targets:
                 for ikey in targets:
+                    # These are called differently in objects.Target
+                    name = {'pnode': 'p_node', 'aggregated_pnode': 'aggregated_p_node'}.get(ikey, ikey)
                     if isinstance(targets[ikey], list):
-                        new_targets.extend([{ikey: value} for value in targets[ikey]])
+                        new_targets.extend([{name: value} for value in targets[ikey]])
                     else:
-                        new_targets.append({ikey: targets[ikey]})
+                        new_targets.append({name: targets[ikey]})
             d[key + "s"] = new_targets
             key = key + "s"
 
-- 
2.43.0


From 0db8b00f7805fbeb20d4d481e30f7ba342310b08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:14:38 +0000
Subject: [PATCH 78/78] fix: order cancelled events whose start has no time
 zone

---
 openleadr/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openleadr/utils.py b/openleadr/utils.py
index 1aecb60..19950bf 100755
--- a/openleadr/utils.py
+++ b/openleadr/utils.py
@@ -878,7 +878,7 @@ def order_events(events, limit=None, offset=None):
     active_events.sort(key=lambda e: event_priority(e))
 
     # Sort the non-active events by their start date
-    other_events.sort(key=lambda e: getmember(e, 'active_period.dtstart'))
+    other_events.sort(key=lambda e: getmember(e, 'active_period.dtstart').astimezone(timezone.utc))
 
     ordered_events = active_events + other_events
     if limit and offset:
-- 
2.43.0

