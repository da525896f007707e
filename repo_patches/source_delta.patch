From 74a6b09ad3ed17b6db9c61f92c0d63b994d96e47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:21:14 +0000
Subject: [PATCH 01/47] fix: logging never throws on bigints, invalid dates or
 unserializable values

---
 .../src/aws/runtime/dt-logger.ts              | 24 +++++++++++++++----
 lib/digitraffic-common/src/utils/logging.ts   |  4 ++--
 2 files changed, 21 insertions(+), 7 deletions(-)

diff --git a/lib/digitraffic-common/src/aws/runtime/dt-logger.ts b/lib/digitraffic-common/src/aws/runtime/dt-logger.ts
index 46304f6..2131da4 100644
--- a/lib/digitraffic-common/src/aws/runtime/dt-logger.ts
+++ b/lib/digitraffic-common/src/aws/runtime/dt-logger.ts
@@ -115,7 +115,7 @@ export class DtLogger {
       runtime: this.runtime,
     };
 
-    this.writeStream.write(`${JSON.stringify(logMessage)}\n`);
+    this.writeStream.write(`${toJson(logMessage)}\n`);
   }
 
   /**
@@ -177,7 +177,7 @@ export class DtLogger {
         ? `${message.error.name}: ${message.error.message}`
         : typeof message.error === "string"
           ? message.error
-          : JSON.stringify(message.error)
+          : toJson(message.error)
       : undefined;
 
     const stack = message.stack
@@ -198,7 +198,7 @@ export class DtLogger {
       runtime: this.runtime,
     };
 
-    this.writeStream.write(`${JSON.stringify(logMessage)}\n`);
+    this.writeStream.write(`${toJson(logMessage)}\n`);
   }
 
   private appendMessageFieldsToMessage(message: LoggableType): string {
@@ -229,15 +229,29 @@ function removePrefix(prefix: string, loggable: LoggableType): LoggableType {
   ) as unknown as LoggableType;
 }
 
+/**
+ * JSON.stringify that never throws: bigints are written as strings and a value that
+ * cannot be serialized (e.g. a circular structure) is replaced with its string presentation.
+ */
+export function toJson(value: unknown): string {
+  try {
+    return JSON.stringify(value, (_key, v: unknown) =>
+      typeof v === "bigint" ? v.toString() : v,
+    );
+  } catch {
+    return JSON.stringify(`[unserializable ${typeof value}]`);
+  }
+}
+
 function valueToString(value: unknown): string {
   if (value === undefined) {
     return "undefined";
   } else if (value === null) {
     return "null";
   } else if (value instanceof Date) {
-    return value.toISOString();
+    return Number.isNaN(value.getTime()) ? String(value) : value.toISOString();
   } else if (typeof value !== "string") {
-    return JSON.stringify(value);
+    return toJson(value);
   } else if (value.includes("=")) {
     return JSON.stringify(value);
   }
diff --git a/lib/digitraffic-common/src/utils/logging.ts b/lib/digitraffic-common/src/utils/logging.ts
index 1f80df7..7fe2500 100644
--- a/lib/digitraffic-common/src/utils/logging.ts
+++ b/lib/digitraffic-common/src/utils/logging.ts
@@ -1,4 +1,4 @@
-import { DtLogger } from "../aws/runtime/dt-logger.js";
+import { DtLogger, toJson } from "../aws/runtime/dt-logger.js";
 import { getEnvVariableOrElse } from "./utils.js";
 
 const functionName = getEnvVariableOrElse("AWS_LAMBDA_FUNCTION_NAME", "test");
@@ -54,7 +54,7 @@ export function logException(
       ? error.message
       : typeof error === "string"
         ? error
-        : JSON.stringify(error);
+        : toJson(error);
 
   const stack =
     error instanceof Error && includeStack ? error.stack : undefined;
-- 
2.43.0


From 09da96a0eed9a64d12fb8a4eb917e2db0b722bcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:22:40 +0000
Subject: [PATCH 02/47] fix: stack check whitelist applies only to the
 resources it matches

---
 .../src/aws/infra/stack/stack-checking-aspect.ts                | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/digitraffic-common/src/aws/infra/stack/stack-checking-aspect.ts b/lib/digitraffic-common/src/aws/infra/stack/stack-checking-aspect.ts
index 01269d5..4032936 100644
--- a/lib/digitraffic-common/src/aws/infra/stack/stack-checking-aspect.ts
+++ b/lib/digitraffic-common/src/aws/infra/stack/stack-checking-aspect.ts
@@ -54,7 +54,7 @@ export class StackCheckingAspect implements IAspect {
 
   private isWhitelisted(key: string): boolean | undefined {
     return this.whitelistedResources?.some((wl) => {
-      return key.matchAll(new RegExp(wl, "g"));
+      return new RegExp(wl).test(key);
     });
   }
 
-- 
2.43.0


From 238cd131d40bb1108c3ad8aaa3ca6677deeee8ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:22:40 +0000
Subject: [PATCH 03/47] fix: database canary enforces a count limit of zero

---
 .../src/aws/infra/canaries/database-checker.ts               | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/lib/digitraffic-common/src/aws/infra/canaries/database-checker.ts b/lib/digitraffic-common/src/aws/infra/canaries/database-checker.ts
index dd70df0..9908ddf 100644
--- a/lib/digitraffic-common/src/aws/infra/canaries/database-checker.ts
+++ b/lib/digitraffic-common/src/aws/infra/canaries/database-checker.ts
@@ -2,6 +2,7 @@ import synthetics from "Synthetics";
 import type { DTDatabase } from "../../../database/database.js";
 import { inDatabaseReadonly } from "../../../database/database.js";
 import type { Countable } from "../../../database/models.js";
+import { isDefined } from "../../../utils/utils.js";
 import { logger } from "../../runtime/dt-logger-default.js";
 import { ProxyHolder } from "../../runtime/secrets/proxy-holder.js";
 import { RdsHolder } from "../../runtime/secrets/rds-holder.js";
@@ -52,13 +53,13 @@ class CountDatabaseCheck extends DatabaseCheck<Countable> {
 
   check(value: Countable): void {
     if ("count" in value) {
-      if (this.minCount && value.count < this.minCount) {
+      if (isDefined(this.minCount) && value.count < this.minCount) {
         this.failed = true;
         throw new Error(
           `count was ${value.count}, minimum is ${this.minCount}`,
         );
       }
-      if (this.maxCount && value.count > this.maxCount) {
+      if (isDefined(this.maxCount) && value.count > this.maxCount) {
         this.failed = true;
         throw new Error(`count was ${value.count}, max is ${this.maxCount}`);
       }
-- 
2.43.0


From 153a6967234a507b2cb5ba88e9d20e81832faab2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:22:40 +0000
Subject: [PATCH 04/47] fix: database canary waits for each check before
 deciding the result

---
 lib/digitraffic-common/src/aws/infra/canaries/Synthetics.d.ts   | 2 +-
 .../src/aws/infra/canaries/database-checker.ts                  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/digitraffic-common/src/aws/infra/canaries/Synthetics.d.ts b/lib/digitraffic-common/src/aws/infra/canaries/Synthetics.d.ts
index 67046ad..d1aa098 100644
--- a/lib/digitraffic-common/src/aws/infra/canaries/Synthetics.d.ts
+++ b/lib/digitraffic-common/src/aws/infra/canaries/Synthetics.d.ts
@@ -22,5 +22,5 @@ declare module "Synthetics" {
     s: string,
     f: () => void,
     c: Record<string, boolean>,
-  ): void;
+  ): Promise<void>;
 }
diff --git a/lib/digitraffic-common/src/aws/infra/canaries/database-checker.ts b/lib/digitraffic-common/src/aws/infra/canaries/database-checker.ts
index 9908ddf..1dc84bf 100644
--- a/lib/digitraffic-common/src/aws/infra/canaries/database-checker.ts
+++ b/lib/digitraffic-common/src/aws/infra/canaries/database-checker.ts
@@ -147,7 +147,7 @@ export class DatabaseCountChecker {
           check.check(value);
         };
 
-        synthetics.executeStep(check.name, checkFunction, stepConfig);
+        await synthetics.executeStep(check.name, checkFunction, stepConfig);
       }
     });
 
-- 
2.43.0


From 53bf7598d81c94ec6b73aa09c38c143ffdce5f05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:22:40 +0000
Subject: [PATCH 05/47] fix: failing response callback fails the url canary
 step

---
 lib/digitraffic-common/src/aws/infra/canaries/url-checker.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/digitraffic-common/src/aws/infra/canaries/url-checker.ts b/lib/digitraffic-common/src/aws/infra/canaries/url-checker.ts
index f5c060d..b92c510 100644
--- a/lib/digitraffic-common/src/aws/infra/canaries/url-checker.ts
+++ b/lib/digitraffic-common/src/aws/infra/canaries/url-checker.ts
@@ -96,7 +96,7 @@ export class UrlChecker {
     ...callbacks: JsonCheckerFunction<T>[]
   ): Promise<void> {
     const callback: JsonCheckerFunction<T> = async (json, body, res) => {
-      await Promise.allSettled(callbacks.map((c) => c(json, body, res)));
+      await Promise.all(callbacks.map((c) => c(json, body, res)));
     };
 
     return this.expectStatus(200, url, callback);
-- 
2.43.0


From 1bc1ad7d947b38f10daa33a7bb2be66b86a82036 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:22:40 +0000
Subject: [PATCH 06/47] fix: gzipped canary responses are decompressed from
 their bytes

---
 .../src/aws/infra/canaries/url-checker.ts                   | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/lib/digitraffic-common/src/aws/infra/canaries/url-checker.ts b/lib/digitraffic-common/src/aws/infra/canaries/url-checker.ts
index b92c510..28c6740 100644
--- a/lib/digitraffic-common/src/aws/infra/canaries/url-checker.ts
+++ b/lib/digitraffic-common/src/aws/infra/canaries/url-checker.ts
@@ -181,8 +181,8 @@ async function getResponseBody(response: IncomingMessage): Promise<string> {
   return body.toString();
 }
 
-function getBodyFromResponse(response: IncomingMessage): Promise<string> {
-  return new Promise((resolve: (value: string) => void) => {
+function getBodyFromResponse(response: IncomingMessage): Promise<Buffer> {
+  return new Promise((resolve: (value: Buffer) => void) => {
     const buffers: Buffer[] = [];
 
     response.on("data", (data: Buffer) => {
@@ -190,7 +190,7 @@ function getBodyFromResponse(response: IncomingMessage): Promise<string> {
     });
 
     response.on("end", () => {
-      resolve(Buffer.concat(buffers).toString());
+      resolve(Buffer.concat(buffers));
     });
   });
 }
-- 
2.43.0


From e7796f7aeaa80a7982217aed43826fbe6e5ba32b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:22:40 +0000
Subject: [PATCH 07/47] fix: url canary verifies the status code it expects

---
 .../src/aws/infra/canaries/url-checker.ts         | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/lib/digitraffic-common/src/aws/infra/canaries/url-checker.ts b/lib/digitraffic-common/src/aws/infra/canaries/url-checker.ts
index 28c6740..1a98e38 100644
--- a/lib/digitraffic-common/src/aws/infra/canaries/url-checker.ts
+++ b/lib/digitraffic-common/src/aws/infra/canaries/url-checker.ts
@@ -84,10 +84,23 @@ export class UrlChecker {
       },
     };
 
+    const verifyStatus: JsonCheckerFunction<T> = async (json, body, res) => {
+      // Synthetics gives the response as the first argument
+      const response = (res ?? json) as IncomingMessage;
+
+      if (response.statusCode !== statusCode) {
+        throw new Error(
+          `${response.statusCode ?? undefined} ${response.statusMessage ?? undefined}`,
+        );
+      }
+
+      await callback(json, body, res);
+    };
+
     await synthetics.executeHttpStep(
       `Verify ${statusCode} for ${sanitizeStepName(url)}`,
       requestOptions,
-      callback,
+      verifyStatus,
     );
   }
 
-- 
2.43.0


From 55ea789f605365b095fd828f293838bc0eb00632 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:16:46 +0000
Subject: [PATCH 08/47] fix: a base64 encoded proxy response gets an etag
 instead of its body as ETag

---
 lib/digitraffic-common/src/aws/types/lambda-proxy-types.ts | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/lib/digitraffic-common/src/aws/types/lambda-proxy-types.ts b/lib/digitraffic-common/src/aws/types/lambda-proxy-types.ts
index 85fac99..0e58c56 100644
--- a/lib/digitraffic-common/src/aws/types/lambda-proxy-types.ts
+++ b/lib/digitraffic-common/src/aws/types/lambda-proxy-types.ts
@@ -53,9 +53,9 @@ export class LambdaProxyResponseBuilder {
     this.body = typeof body === "string" ? body : JSON.stringify(body);
     this.isBase64Encoded = isBase64Encoded;
     // create strong etag by default from original body
-    this.etag = this.isBase64Encoded
-      ? decodeBase64ToUtf8(this.body)
-      : etag(this.body);
+    this.etag = etag(
+      this.isBase64Encoded ? decodeBase64ToUtf8(this.body) : this.body,
+    );
     return this;
   }
 
-- 
2.43.0


From 270d8fd909014181280adb66f499294888adfeef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:16:46 +0000
Subject: [PATCH 09/47] fix: a proxy response claims gzip only when its body
 was compressed

---
 lib/digitraffic-common/src/aws/types/lambda-proxy-types.ts | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/lib/digitraffic-common/src/aws/types/lambda-proxy-types.ts b/lib/digitraffic-common/src/aws/types/lambda-proxy-types.ts
index 0e58c56..f88498f 100644
--- a/lib/digitraffic-common/src/aws/types/lambda-proxy-types.ts
+++ b/lib/digitraffic-common/src/aws/types/lambda-proxy-types.ts
@@ -170,12 +170,15 @@ export class LambdaProxyResponseBuilder {
     }
     // This needs to be called before building the response as this might modify compressBody value
     const maybeEncodedBody = this.body ? this.encodeBody() : "";
+    // An empty or already base64 encoded body is never compressed
+    const compressed =
+      this.compressBody && !!this.body && !this.isBase64Encoded;
 
     const response = {
       statusCode: this.status,
       headers: {
         "Content-Type": this.contentType,
-        ...(this.compressBody ? { "Content-Encoding": "gzip" } : {}),
+        ...(compressed ? { "Content-Encoding": "gzip" } : {}),
         ...(this.fileName
           ? { "Content-Disposition": `attachment; filename="${this.fileName}"` }
           : {}),
@@ -186,7 +189,7 @@ export class LambdaProxyResponseBuilder {
         ...(this.etag ? { ETag: this.etag } : {}),
       },
       body: maybeEncodedBody,
-      isBase64Encoded: this.isBase64Encoded || this.compressBody,
+      isBase64Encoded: this.isBase64Encoded || compressed,
     } satisfies APIGatewayProxyResult;
 
     // Count response size and return bad request if too large
-- 
2.43.0


From f09ffa84d7f455d1ac770b9ca622ead7ba763066 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:17:44 +0000
Subject: [PATCH 10/47] fix: names and values of passed-through query
 parameters are escaped

---
 lib/digitraffic-common/src/aws/infra/api/integration.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/digitraffic-common/src/aws/infra/api/integration.ts b/lib/digitraffic-common/src/aws/infra/api/integration.ts
index 2f07cb5..9eb905e 100644
--- a/lib/digitraffic-common/src/aws/infra/api/integration.ts
+++ b/lib/digitraffic-common/src/aws/infra/api/integration.ts
@@ -21,7 +21,7 @@ interface ApiParameter {
 
 const VELOCITY_ALL_PARAMS = `#foreach($paramName in $params.keySet())
     #if( ! $paramMap.containsKey("_$paramName"))
-        #set($tmp = $paramMap.put($paramName, $params[$paramName]))
+        #set($tmp = $paramMap.put($util.escapeJavaScript($paramName), $util.escapeJavaScript($params[$paramName])))
     #end
 #end`;
 
-- 
2.43.0


From b3906f4d9ae1ba76846e7c31fbc4ed727f9dc17e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:17:44 +0000
Subject: [PATCH 11/47] fix: a passed-through query parameter never replaces a
 named parameter

---
 lib/digitraffic-common/src/aws/infra/api/integration.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/digitraffic-common/src/aws/infra/api/integration.ts b/lib/digitraffic-common/src/aws/infra/api/integration.ts
index 9eb905e..da39921 100644
--- a/lib/digitraffic-common/src/aws/infra/api/integration.ts
+++ b/lib/digitraffic-common/src/aws/infra/api/integration.ts
@@ -20,7 +20,7 @@ interface ApiParameter {
 }
 
 const VELOCITY_ALL_PARAMS = `#foreach($paramName in $params.keySet())
-    #if( ! $paramMap.containsKey("_$paramName"))
+    #if( ! $paramMap.containsKey("_$paramName") && ! $paramMap.containsKey($paramName))
         #set($tmp = $paramMap.put($util.escapeJavaScript($paramName), $util.escapeJavaScript($params[$paramName])))
     #end
 #end`;
-- 
2.43.0


From 9995dc9365b329294dd37b26d285f64a01bdff5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:17:44 +0000
Subject: [PATCH 12/47] fix: an integration that only passes the body gets its
 request template

---
 lib/digitraffic-common/src/aws/infra/api/integration.ts | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lib/digitraffic-common/src/aws/infra/api/integration.ts b/lib/digitraffic-common/src/aws/infra/api/integration.ts
index da39921..140c1a6 100644
--- a/lib/digitraffic-common/src/aws/infra/api/integration.ts
+++ b/lib/digitraffic-common/src/aws/infra/api/integration.ts
@@ -146,7 +146,9 @@ export class DigitrafficIntegration<T extends string> {
       integrationResponses,
       requestParameters: undefined,
       requestTemplates:
-        this.parameters.length === 0 && !this._passAllQueryParameters
+        this.parameters.length === 0 &&
+        !this._passAllQueryParameters &&
+        !this._passBody
           ? undefined
           : this.createRequestTemplates(),
       passthroughBehavior: PassthroughBehavior.WHEN_NO_MATCH,
-- 
2.43.0


From cd27b45d75b13d860d9adf8ef0e25ac3c2cca7d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:15:36 +0000
Subject: [PATCH 13/47] fix: requests with an empty Digitraffic-User header are
 throttled as anonymous

An empty header has size 0: it is neither > 0 (user rules) nor matched by
NOT(size >= 0) (anonymous rules), so such requests escaped every throttle.
---
 lib/digitraffic-common/src/aws/infra/acl-builder.ts | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/lib/digitraffic-common/src/aws/infra/acl-builder.ts b/lib/digitraffic-common/src/aws/infra/acl-builder.ts
index 6852410..2f7c965 100644
--- a/lib/digitraffic-common/src/aws/infra/acl-builder.ts
+++ b/lib/digitraffic-common/src/aws/infra/acl-builder.ts
@@ -452,10 +452,10 @@ function createThrottleStatement(
   isBasedOnIpAndUriPath: boolean,
   path?: RegExp,
 ): CfnWebACL.StatementProperty {
-  // this statement matches empty digitraffic-user -header
+  // this statement matches a non-empty digitraffic-user -header
   const matchStatement: CfnWebACL.StatementProperty = {
     sizeConstraintStatement: {
-      comparisonOperator: isHeaderRequired ? "GT" : "GE",
+      comparisonOperator: "GT",
       fieldToMatch: {
         singleHeader: {
           Name: "digitraffic-user",
@@ -466,8 +466,8 @@ function createThrottleStatement(
     } as CfnWebACL.SizeConstraintStatementProperty,
   };
 
-  // header present       -> size > 0
-  // header not present   -> NOT(size >= 0)
+  // header present                -> size > 0
+  // header not present or empty   -> NOT(size > 0)
 
   let scopeDownStatement = isHeaderRequired
     ? matchStatement
-- 
2.43.0


From 1112f13ffc44215a730e0d15085f0a3dbf37137e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:48:40 +0000
Subject: [PATCH 14/47] fix: answer 500 when SQS refuses a message with any
 error status

Only status 500 was mapped to the error response, so a message refused with
400 or 403 was answered 200 to the sender and lost.
---
 lib/digitraffic-common/src/aws/infra/sqs-integration.ts | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/digitraffic-common/src/aws/infra/sqs-integration.ts b/lib/digitraffic-common/src/aws/infra/sqs-integration.ts
index db47136..74d21e0 100644
--- a/lib/digitraffic-common/src/aws/infra/sqs-integration.ts
+++ b/lib/digitraffic-common/src/aws/infra/sqs-integration.ts
@@ -80,7 +80,8 @@ export function attachQueueToApiGatewayResource(
           responseTemplates: {
             "text/html": "Error",
           },
-          selectionPattern: "500",
+          // any error, SQS refuses e.g. too large messages with 400
+          selectionPattern: "[45]\\d{2}",
         },
       ],
     },
-- 
2.43.0


From 36800db104777be299e490ca21acb2ba3a16828e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:48:40 +0000
Subject: [PATCH 15/47] fix: keep dead-letter messages that could not be
 written to the bucket

The failed upload was only logged, so the batch succeeded and SQS deleted the
messages. Failing the batch leaves them in the queue to be delivered again.
---
 lib/digitraffic-common/src/aws/infra/sqs-queue-internal.ts | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lib/digitraffic-common/src/aws/infra/sqs-queue-internal.ts b/lib/digitraffic-common/src/aws/infra/sqs-queue-internal.ts
index b216e4f..6ea8525 100644
--- a/lib/digitraffic-common/src/aws/infra/sqs-queue-internal.ts
+++ b/lib/digitraffic-common/src/aws/infra/sqs-queue-internal.ts
@@ -93,11 +93,13 @@ async function uploadToS3(
   });
   try {
     await s3.send(command);
-  } catch (_error) {
+  } catch (error) {
     logger.error({
       method: "s3.uploadToS3",
       message: `upload failed to bucket ${bucketName}`,
     });
+    // fail the batch, otherwise SQS deletes the messages that were not saved
+    throw error;
   }
 }
 
-- 
2.43.0


From 8fab3b23985dab048c8414064f305279f21d4b6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:37:15 +0000
Subject: [PATCH 16/47] fix: aton-faults writes its update inside the
 transaction it opens

---
 marine/aton-faults/src/db/faults.ts             | 7 +++++--
 marine/aton-faults/src/service/update-faults.ts | 4 ++--
 2 files changed, 7 insertions(+), 4 deletions(-)

diff --git a/marine/aton-faults/src/db/faults.ts b/marine/aton-faults/src/db/faults.ts
index 1492c93..a975891 100644
--- a/marine/aton-faults/src/db/faults.ts
+++ b/marine/aton-faults/src/db/faults.ts
@@ -1,5 +1,8 @@
 import { TZDate } from "@date-fns/tz";
-import type { DTDatabase } from "@digitraffic/common/dist/database/database";
+import type {
+  DTDatabase,
+  DTTransaction,
+} from "@digitraffic/common/dist/database/database";
 import type { Language } from "@digitraffic/common/dist/types/language";
 import { createGeometry } from "@digitraffic/common/dist/utils/geometry";
 import { subHours } from "date-fns";
@@ -132,7 +135,7 @@ export function findFaultIdsByRoute(
 }
 
 export function updateFaults(
-  db: DTDatabase,
+  db: DTDatabase | DTTransaction,
   domain: string,
   faults: FaultFeature[],
 ): Promise<unknown>[] {
diff --git a/marine/aton-faults/src/service/update-faults.ts b/marine/aton-faults/src/service/update-faults.ts
index b1e6e4e..d33b261 100644
--- a/marine/aton-faults/src/service/update-faults.ts
+++ b/marine/aton-faults/src/service/update-faults.ts
@@ -19,9 +19,9 @@ export async function updateFaults(url: string, domain: string): Promise<void> {
   await inDatabase((db: DTDatabase) => {
     return db.tx((t: DTTransaction) => {
       return t.batch([
-        ...FaultsDB.updateFaults(db, domain, validated),
+        ...FaultsDB.updateFaults(t, domain, validated),
         LastUpdatedDB.updateUpdatedTimestamp(
-          db,
+          t,
           ATON_FAULTS_CHECK,
           new Date(start),
         ),
-- 
2.43.0


From 1eeea7b22e5d35013e263a5e3b8dd7e63bd2a35a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:37:15 +0000
Subject: [PATCH 17/47] fix: saving a timestamp looks up its port call and ship
 in its own transaction

---
 marine/portactivity/src/dao/timestamps.ts     | 2 +-
 marine/portactivity/src/service/timestamps.ts | 6 +++---
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/marine/portactivity/src/dao/timestamps.ts b/marine/portactivity/src/dao/timestamps.ts
index d302609..a4d526a 100644
--- a/marine/portactivity/src/dao/timestamps.ts
+++ b/marine/portactivity/src/dao/timestamps.ts
@@ -540,7 +540,7 @@ export function deleteById(
 }
 
 export async function findPortcallId(
-  db: DTDatabase,
+  db: DTDatabase | DTTransaction,
   locode: string,
   eventType: EventType,
   eventTime: Date,
diff --git a/marine/portactivity/src/service/timestamps.ts b/marine/portactivity/src/service/timestamps.ts
index 1fa0b81..acc4679 100644
--- a/marine/portactivity/src/service/timestamps.ts
+++ b/marine/portactivity/src/service/timestamps.ts
@@ -50,7 +50,7 @@ export function saveTimestamp(
     const portcallId =
       timestamp.portcallId ??
       (await TimestampsDB.findPortcallId(
-        db,
+        t,
         timestamp.location.port,
         getPortcallEventType(timestamp),
         parseISO(timestamp.eventTime),
@@ -80,7 +80,7 @@ export function saveTimestamp(
     // do not persist timestamp if no imo is found
     const imo =
       timestamp.ship.imo ??
-      (await TimestampsDB.findImoByMmsi(db, timestamp.ship.mmsi));
+      (await TimestampsDB.findImoByMmsi(t, timestamp.ship.mmsi));
     if (!imo) {
       logger.warn({
         method: "ProcessQueue.saveTimestamp",
@@ -96,7 +96,7 @@ export function saveTimestamp(
     const mmsi =
       timestamp.ship.mmsi && timestamp.ship.mmsi > 0
         ? timestamp.ship.mmsi
-        : await TimestampsDB.findMmsiByImo(db, timestamp.ship.imo);
+        : await TimestampsDB.findMmsiByImo(t, timestamp.ship.imo);
     if (!mmsi) {
       logger.warn({
         method: "ProcessQueue.saveTimestamp",
-- 
2.43.0


From 6647eb30d0589dbb7e781b0cd00392618e9964f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:38:16 +0000
Subject: [PATCH 18/47] fix: storing a marine camera image locally waits for
 the file

---
 marine/marinecam/src/service/image-store.ts | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/marine/marinecam/src/service/image-store.ts b/marine/marinecam/src/service/image-store.ts
index 536d4ce..3e62c41 100644
--- a/marine/marinecam/src/service/image-store.ts
+++ b/marine/marinecam/src/service/image-store.ts
@@ -26,8 +26,7 @@ export function storeImage(
       method: "ImageStore.storeImage",
       message: `Storing image ${cameraId} locally!`,
     });
-    writeFile(imageName, image, BASE64);
-    return Promise.resolve(undefined);
+    return writeFile(imageName, image, BASE64).then(() => undefined);
   } else {
     // store to s3
     const keyName = `images/Saimaa/${imageName}`;
-- 
2.43.0


From c8b0c65340e1ec1fd7df3c311897fd3a12168004 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:38:16 +0000
Subject: [PATCH 19/47] fix: cleaning maintenance tracking data is waited for
 by its handler

---
 .../clean-maintenance-tracking-data.ts                        | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/road/maintenance-tracking/src/lambda/clean-maintenance-tracking-data/clean-maintenance-tracking-data.ts b/road/maintenance-tracking/src/lambda/clean-maintenance-tracking-data/clean-maintenance-tracking-data.ts
index 2b27940..46cc55d 100644
--- a/road/maintenance-tracking/src/lambda/clean-maintenance-tracking-data/clean-maintenance-tracking-data.ts
+++ b/road/maintenance-tracking/src/lambda/clean-maintenance-tracking-data/clean-maintenance-tracking-data.ts
@@ -5,9 +5,9 @@ import { cleanMaintenanceTrackingData } from "../../service/maintenance-tracking
 
 const proxyHolder = ProxyHolder.create();
 
-export const handler: Handler = (): void => {
+export const handler: Handler = (): Promise<void> => {
   const start = Date.now();
-  proxyHolder
+  return proxyHolder
     .setCredentials()
     .then(() => {
       logger.debug(
-- 
2.43.0


From ce60d207a479a84da3a1c7f1de228cd70b53eac0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:38:16 +0000
Subject: [PATCH 20/47] fix: get-faults maps a failed read to its error
 response

---
 marine/aton-faults/src/lambda/get-faults/get-faults.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/marine/aton-faults/src/lambda/get-faults/get-faults.ts b/marine/aton-faults/src/lambda/get-faults/get-faults.ts
index d41800a..b98eaaa 100644
--- a/marine/aton-faults/src/lambda/get-faults/get-faults.ts
+++ b/marine/aton-faults/src/lambda/get-faults/get-faults.ts
@@ -41,7 +41,7 @@ export const handler = async (
   try {
     const getFaultsEvent = GetFaultsSchema.parse(event);
 
-    return proxyHolder
+    return await proxyHolder
       .setCredentials()
       .then(() =>
         findAllFaults(getFaultsEvent.language, getFaultsEvent.fixed_in_hours),
-- 
2.43.0


From 9f8e180b321f04b4aa0399fc1d5d845016582a45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:38:16 +0000
Subject: [PATCH 21/47] fix: get-visits maps a failed read to its error
 response

---
 marine/port-call/src/lambda/get-visits/get-visits.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/marine/port-call/src/lambda/get-visits/get-visits.ts b/marine/port-call/src/lambda/get-visits/get-visits.ts
index b9361a6..a49e38f 100644
--- a/marine/port-call/src/lambda/get-visits/get-visits.ts
+++ b/marine/port-call/src/lambda/get-visits/get-visits.ts
@@ -25,7 +25,7 @@ export const handler = async (
       portOfCall: parsed.portOfCall?.toUpperCase(),
     };
 
-    return proxyHolder
+    return await proxyHolder
       .setCredentials()
       .then(() => getAllVisits(getVisitsEvent))
       .then(([visits, lastUpdated]) => {
-- 
2.43.0


From cec264fbcef640bf71f08f9503b39b346711728d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:38:16 +0000
Subject: [PATCH 22/47] fix: an unreadable visibility answer is logged and
 reported like other failures

---
 marine/shiplight/src/api/areavisibility.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/marine/shiplight/src/api/areavisibility.ts b/marine/shiplight/src/api/areavisibility.ts
index 742fbd7..ac33e94 100644
--- a/marine/shiplight/src/api/areavisibility.ts
+++ b/marine/shiplight/src/api/areavisibility.ts
@@ -35,7 +35,7 @@ export class AreaVisibilityApi {
         });
         return Promise.reject();
       }
-      return resp.json<AreaVisibilityResponse>();
+      return await resp.json<AreaVisibilityResponse>();
     } catch (error) {
       logException(logger, error);
 
-- 
2.43.0


From 2590d04e124469ff23105a455cfdb6449b58bc53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:38:16 +0000
Subject: [PATCH 23/47] fix: a failed domain update is logged by the updater
 that catches it

---
 .../src/service/autori-update.ts                                | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/road/maintenance-tracking-municipality/src/service/autori-update.ts b/road/maintenance-tracking-municipality/src/service/autori-update.ts
index 60750ec..625825c 100644
--- a/road/maintenance-tracking-municipality/src/service/autori-update.ts
+++ b/road/maintenance-tracking-municipality/src/service/autori-update.ts
@@ -113,7 +113,7 @@ export class AutoriUpdate {
         },
       );
 
-      return Promise.allSettled(
+      return await Promise.allSettled(
         contracts.map((contract: DbDomainContract) => {
           const start =
             AutoriUtils.resolveNextStartTimeForDataFromApi(contract);
-- 
2.43.0


From cdc0f1ed37ac88db68d1d640140d2f9c8aa3960d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:38:29 +0000
Subject: [PATCH 24/47] fix: the Awake subscription id is stored before the
 session's result is given

---
 marine/portactivity/src/api/awake-ai-atx.ts | 27 ++++++++++++---------
 1 file changed, 16 insertions(+), 11 deletions(-)

diff --git a/marine/portactivity/src/api/awake-ai-atx.ts b/marine/portactivity/src/api/awake-ai-atx.ts
index bfdad1b..8177e08 100644
--- a/marine/portactivity/src/api/awake-ai-atx.ts
+++ b/marine/portactivity/src/api/awake-ai-atx.ts
@@ -158,6 +158,7 @@ export class AwakeAiATXApi {
     });
 
     const atxs: AwakeAIATXTimestampMessage[] = [];
+    const pendingStores: Promise<unknown>[] = [];
 
     webSocket.on("message", (messageRaw: string) => {
       const message = JSON.parse(messageRaw) as unknown as AwakeAiATXMessage;
@@ -174,11 +175,13 @@ export class AwakeAiATXApi {
               method: "AwakeAiATXApi.getATXs",
               message: `Subscription resume failed: ${subscriptionMessage.message ?? "unknown reason"}, clearing stale subscription ID`,
             });
-            this.putInParameterStore(
-              ssm,
-              PortActivityParameterKeys.AWAKE_ATX_SUBSCRIPTION_ID,
-              AwakeAiATXApi.EMPTY_SUBSCRIPTION_ID,
-            ).catch((error) => logException(logger, error));
+            pendingStores.push(
+              this.putInParameterStore(
+                ssm,
+                PortActivityParameterKeys.AWAKE_ATX_SUBSCRIPTION_ID,
+                AwakeAiATXApi.EMPTY_SUBSCRIPTION_ID,
+              ).catch((error) => logException(logger, error)),
+            );
             break;
           }
           const receivedSubscriptionId = subscriptionMessage.subscriptionId;
@@ -186,11 +189,13 @@ export class AwakeAiATXApi {
             receivedSubscriptionId &&
             receivedSubscriptionId !== subscriptionId
           ) {
-            this.putInParameterStore(
-              ssm,
-              PortActivityParameterKeys.AWAKE_ATX_SUBSCRIPTION_ID,
-              receivedSubscriptionId,
-            ).catch((error) => logException(logger, error));
+            pendingStores.push(
+              this.putInParameterStore(
+                ssm,
+                PortActivityParameterKeys.AWAKE_ATX_SUBSCRIPTION_ID,
+                receivedSubscriptionId,
+              ).catch((error) => logException(logger, error)),
+            );
           }
           break;
         }
@@ -218,7 +223,7 @@ export class AwakeAiATXApi {
       });
       setTimeout(() => {
         webSocket.close();
-        resolve(atxs);
+        resolve(Promise.all(pendingStores).then(() => atxs));
       }, timeoutMillis);
     });
   }
-- 
2.43.0


From b2646ad0b71bf6c02e83ae580318928963551c36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:38:57 +0000
Subject: [PATCH 25/47] fix: rami releases its pooled connection when the work
 fails

---
 rail/rami/src/util/database.ts | 22 ++++++++++++----------
 1 file changed, 12 insertions(+), 10 deletions(-)

diff --git a/rail/rami/src/util/database.ts b/rail/rami/src/util/database.ts
index 6ab3d08..be6445f 100644
--- a/rail/rami/src/util/database.ts
+++ b/rail/rami/src/util/database.ts
@@ -33,14 +33,14 @@ export async function inTransaction(
     const start = Date.now();
     const conn = await pool.getConnection();
 
-    logger.info({
-      ...getTraceFields(),
-      method: "database.inTransaction",
-      customEvent: "transaction_started",
-    });
-
-    await conn.beginTransaction();
     try {
+      logger.info({
+        ...getTraceFields(),
+        method: "database.inTransaction",
+        customEvent: "transaction_started",
+      });
+
+      await conn.beginTransaction();
       await fn(conn);
       await conn.commit();
 
@@ -80,9 +80,11 @@ export async function inDatabase<T>(
   fn: (conn: Connection) => Promise<T>,
 ): Promise<T> {
   const conn = await pool.getConnection();
-  const result = await fn(conn);
-  conn.release();
-  return result;
+  try {
+    return await fn(conn);
+  } finally {
+    conn.release();
+  }
 }
 
 export async function getOpts(): Promise<MysqlOpts> {
-- 
2.43.0


From 7b923288a6bd5f38160dd8ad513e775e78697de6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:48:55 +0000
Subject: [PATCH 26/47] fix: WKT of polygons with holes and of several polygons
 keeps each ring apart

---
 lib/digitraffic-common/src/utils/geometry.ts | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/lib/digitraffic-common/src/utils/geometry.ts b/lib/digitraffic-common/src/utils/geometry.ts
index f82ec3a..32a7496 100644
--- a/lib/digitraffic-common/src/utils/geometry.ts
+++ b/lib/digitraffic-common/src/utils/geometry.ts
@@ -49,13 +49,11 @@ function linestring(coordinates: Position[]): string {
 }
 
 function polygon(coordinates: Position[][]): string {
-  const list = coordinates.map((c: Position[]) => linestring(c)).join(",");
-  return `(${list})`;
+  return coordinates.map((c: Position[]) => `(${linestring(c)})`).join(",");
 }
 
 function multiPolygon(coordinates: Position[][][]): string {
-  const list = coordinates.map((c: Position[][]) => polygon(c)).join(",");
-  return `(${list})`;
+  return coordinates.map((c: Position[][]) => `(${polygon(c)})`).join(",");
 }
 
 function coordinatePair(coordinate: Position): string {
-- 
2.43.0


From 704094442669544e676f00a5f8e8af8cdf7e2c53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:48:55 +0000
Subject: [PATCH 27/47] fix: distances are counted also from positions on the
 equator and prime meridian

---
 lib/digitraffic-common/src/utils/geometry.ts | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/lib/digitraffic-common/src/utils/geometry.ts b/lib/digitraffic-common/src/utils/geometry.ts
index 32a7496..c548078 100644
--- a/lib/digitraffic-common/src/utils/geometry.ts
+++ b/lib/digitraffic-common/src/utils/geometry.ts
@@ -140,10 +140,10 @@ export function distanceBetweenPositionsInKm(
   if (
     pos1.length > 3 ||
     pos2.length > 3 ||
-    !pos10 ||
-    !pos11 ||
-    !pos20 ||
-    !pos21
+    pos10 === undefined ||
+    pos11 === undefined ||
+    pos20 === undefined ||
+    pos21 === undefined
   ) {
     throw Error(
       `Illegal Positions ${pos1.toString()} and ${pos2.toString()}. Both must have length between 2 or 3.`,
-- 
2.43.0


From cb549aa178b27dcf28039c45ba117e10b4ea26fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:48:55 +0000
Subject: [PATCH 28/47] fix: getFirst and getLast order by the given key
 without changing the array

---
 lib/digitraffic-common/src/utils/utils.ts | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lib/digitraffic-common/src/utils/utils.ts b/lib/digitraffic-common/src/utils/utils.ts
index 3dde940..84bc52f 100644
--- a/lib/digitraffic-common/src/utils/utils.ts
+++ b/lib/digitraffic-common/src/utils/utils.ts
@@ -69,7 +69,9 @@ function getFirstOrLast<T>(
   const index = getFirst ? 0 : array.length - 1;
 
   if (sortFunction) {
-    return array.sort(sortFunction)[index] as T;
+    return [...array].sort((a, b) => sortFunction(a) - sortFunction(b))[
+      index
+    ] as T;
   }
 
   return array[index] as T;
-- 
2.43.0


From 90a650be4ff9a68315c33ebd95e0b64868ab910e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:48:55 +0000
Subject: [PATCH 29/47] fix: an identification number with a fraction is not
 valid

---
 lib/digitraffic-common/src/marine/id_utils.ts | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/lib/digitraffic-common/src/marine/id_utils.ts b/lib/digitraffic-common/src/marine/id_utils.ts
index cbcd326..1df29b3 100644
--- a/lib/digitraffic-common/src/marine/id_utils.ts
+++ b/lib/digitraffic-common/src/marine/id_utils.ts
@@ -1,7 +1,12 @@
 import { logger } from "../aws/runtime/dt-logger-default.js";
 
 export function isValidIMO(imo: number): boolean {
-  return imo >= 1000000 && imo <= 9999999 && imoChecksumIsValid(imo);
+  return (
+    Number.isInteger(imo) &&
+    imo >= 1000000 &&
+    imo <= 9999999 &&
+    imoChecksumIsValid(imo)
+  );
 }
 
 function imoChecksumIsValid(imo: number): boolean {
@@ -32,7 +37,7 @@ function imoChecksumIsValid(imo: number): boolean {
 }
 
 export function isValidMMSI(mmsi: number): boolean {
-  return mmsi >= 100000000 && mmsi <= 999999999;
+  return Number.isInteger(mmsi) && mmsi >= 100000000 && mmsi <= 999999999;
 }
 
 const LocodePattern = /^FI[A-Z]{3}$/i;
-- 
2.43.0


From be8cca56e281aed0a87f194cea1dc0416b78157b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:27:07 +0000
Subject: [PATCH 30/47] fix: the schedule function is deployed from the
 directory its code is built to

---
 marine/voyage-plan-gateway/src/public-api.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/marine/voyage-plan-gateway/src/public-api.ts b/marine/voyage-plan-gateway/src/public-api.ts
index 0421c96..f6d9754 100644
--- a/marine/voyage-plan-gateway/src/public-api.ts
+++ b/marine/voyage-plan-gateway/src/public-api.ts
@@ -68,7 +68,7 @@ function createVtsProxyHandler(
     functionName,
     defaultLambdaConfiguration({
       functionName,
-      code: new AssetCode("dist/lambda"),
+      code: new AssetCode("dist/lambda/lambda-get-schedules"),
       handler: "lambda-get-schedules.handler",
       logGroup: logGroup,
       environment: env,
-- 
2.43.0


From a78f2c0913fc74d28aa9d09eb3feb0d45a64194c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:27:07 +0000
Subject: [PATCH 31/47] fix: the camera listing reads the user's groups under
 the name and in the format they are passed

---
 .../src/lambda/list-cameras/list-cameras.ts       | 15 ++++++---------
 1 file changed, 6 insertions(+), 9 deletions(-)

diff --git a/marine/marinecam/src/lambda/list-cameras/list-cameras.ts b/marine/marinecam/src/lambda/list-cameras/list-cameras.ts
index ba0eb8c..fcb9f5d 100644
--- a/marine/marinecam/src/lambda/list-cameras/list-cameras.ts
+++ b/marine/marinecam/src/lambda/list-cameras/list-cameras.ts
@@ -5,14 +5,13 @@ import * as MetadataService from "../../service/metadata.js";
 
 const rdsHolder = RdsHolder.create();
 
-const GROUP_SEPARATOR = ",";
-
 interface ListCamerasEvent {
-  groups: string;
+  // set by the authorizer
+  "authorizer.groups": string;
 }
 
 export function handler(event: ListCamerasEvent): Promise<Camera[]> {
-  const usersGroups = getUserGroups(event.groups);
+  const usersGroups = getUserGroups(event["authorizer.groups"]);
 
   if (usersGroups.length === 0) {
     return Promise.resolve([] as Camera[]);
@@ -23,13 +22,11 @@ export function handler(event: ListCamerasEvent): Promise<Camera[]> {
     .then(() => MetadataService.listAllCameras(usersGroups));
 }
 
-// eventGroups is in form [group1, group2...]
+// eventGroups is a JSON array: ["group1", "group2"...]
 function getUserGroups(eventGroups: string): string[] {
-  if (!eventGroups) {
+  if (!eventGroups?.startsWith("[")) {
     return [];
   }
 
-  const withoutBraces = eventGroups.substring(1, eventGroups.length - 1);
-
-  return withoutBraces.split(GROUP_SEPARATOR).map((s) => s.trim());
+  return JSON.parse(eventGroups) as string[];
 }
-- 
2.43.0


From 00f0f1d19420cecbd065f3995f61c94f2bed09a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:41:40 +0000
Subject: [PATCH 32/47] fix: timestamps whose processing fails go back to their
 queue

---
 marine/portactivity/src/internal-lambdas-stack.ts | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/marine/portactivity/src/internal-lambdas-stack.ts b/marine/portactivity/src/internal-lambdas-stack.ts
index ac38b0d..46f8713 100644
--- a/marine/portactivity/src/internal-lambdas-stack.ts
+++ b/marine/portactivity/src/internal-lambdas-stack.ts
@@ -274,7 +274,9 @@ function createProcessQueueLambda(
     },
   );
 
-  processQueueLambda.addEventSource(new SqsEventSource(queue));
+  processQueueLambda.addEventSource(
+    new SqsEventSource(queue, { reportBatchItemFailures: true }),
+  );
 
   return processQueueLambda;
 }
-- 
2.43.0


From f0b12c2f476d31b10661d6c1e4bf7065a298c42b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:41:40 +0000
Subject: [PATCH 33/47] fix: a failed upload reaches its caller

---
 lib/digitraffic-common/src/aws/runtime/s3.ts | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lib/digitraffic-common/src/aws/runtime/s3.ts b/lib/digitraffic-common/src/aws/runtime/s3.ts
index 531a8d3..74cbb28 100644
--- a/lib/digitraffic-common/src/aws/runtime/s3.ts
+++ b/lib/digitraffic-common/src/aws/runtime/s3.ts
@@ -20,10 +20,12 @@ export async function uploadToS3(
   });
   try {
     await s3.send(command);
-  } catch (_error) {
+  } catch (error) {
     logger.error({
       method: "s3.uploadToS3",
       message: `upload failed to bucket ${bucketName}`,
     });
+    // let the caller know, otherwise what was not saved is taken as handled
+    throw error;
   }
 }
-- 
2.43.0


From 4b64082f8e98a80aad478ebc31b10b9bb6279d36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:41:40 +0000
Subject: [PATCH 34/47] fix: maintenance messages whose handling fails go back
 to their queue

---
 .../src/lambda/process-queue/process-queue.ts         | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/road/maintenance-tracking/src/lambda/process-queue/process-queue.ts b/road/maintenance-tracking/src/lambda/process-queue/process-queue.ts
index f5c7bfe..74ee52f 100644
--- a/road/maintenance-tracking/src/lambda/process-queue/process-queue.ts
+++ b/road/maintenance-tracking/src/lambda/process-queue/process-queue.ts
@@ -29,9 +29,16 @@ function getRdsHolder(): RdsHolder {
   return rdsHolder;
 }
 
-export const handler: (
+export const handler = async (
   event: SQSEvent,
-) => Promise<PromiseSettledResult<void>[]> = handlerFn(sqsExtendedClient);
+): Promise<PromiseSettledResult<void>[]> => {
+  const results = await handlerFn(sqsExtendedClient)(event);
+  // fail the batch, otherwise SQS deletes the messages that were not handled
+  if (results.some((result) => result.status === "rejected")) {
+    throw new Error("Message handling failed");
+  }
+  return results;
+};
 
 export function handlerFn(
   sqsExtendedClient: ExtendedSqsClient,
-- 
2.43.0


From 51542fece86c81259d22bc13ddac0955450400e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:41:40 +0000
Subject: [PATCH 35/47] fix: data upload messages whose handling fails go back
 to their queue

---
 .../src/lambda/handle-new-messages/handle-new-messages.ts       | 2 ++
 road/data-upload/src/lambda/send-mqtt/send-mqtt.ts              | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/road/data-upload/src/lambda/handle-new-messages/handle-new-messages.ts b/road/data-upload/src/lambda/handle-new-messages/handle-new-messages.ts
index bcda6d0..c090020 100644
--- a/road/data-upload/src/lambda/handle-new-messages/handle-new-messages.ts
+++ b/road/data-upload/src/lambda/handle-new-messages/handle-new-messages.ts
@@ -21,6 +21,8 @@ export const handler = async (): Promise<void> => {
       method,
       error,
     });
+    // let the queue retry the messages, or set them aside
+    throw error;
   } finally {
     logger.info({
       method,
diff --git a/road/data-upload/src/lambda/send-mqtt/send-mqtt.ts b/road/data-upload/src/lambda/send-mqtt/send-mqtt.ts
index 630b5e4..bfe001f 100644
--- a/road/data-upload/src/lambda/send-mqtt/send-mqtt.ts
+++ b/road/data-upload/src/lambda/send-mqtt/send-mqtt.ts
@@ -45,5 +45,7 @@ export const handler = async (event: SQSEvent): Promise<void> => {
       method,
       error,
     });
+    // let the queue retry the messages, or set them aside
+    throw error;
   }
 };
-- 
2.43.0


From 34fc28cf07c114fefae169ea7d9f777ea69c6f20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:41:40 +0000
Subject: [PATCH 36/47] fix: a failed message of the passenger information
 service is stored as valid JSON or kept

---
 .../src/lambda/process-dlq/process-dlq.ts     | 21 ++++++++++++-------
 rail/rami/src/util/s3.ts                      |  3 ++-
 2 files changed, 15 insertions(+), 9 deletions(-)

diff --git a/rail/rami/src/lambda/process-dlq/process-dlq.ts b/rail/rami/src/lambda/process-dlq/process-dlq.ts
index 8caafd5..cf39a8e 100644
--- a/rail/rami/src/lambda/process-dlq/process-dlq.ts
+++ b/rail/rami/src/lambda/process-dlq/process-dlq.ts
@@ -23,25 +23,30 @@ export const handler = async (event: DlqEvent): Promise<void> => {
   const uploads = event.Records.map((e, idx: number) => {
     logger.debug(`event ${JSON.stringify(e)}`);
 
+    let body: string;
+    let fileName: string;
+
     try {
       const dlqMessage = JSON.parse(e.body) as DlqMessage;
-      const body = `[{"errors":"${dlqMessage.errors}"}, ${JSON.stringify(
+      body = JSON.stringify([
+        { errors: dlqMessage.errors },
         dlqMessage.message,
-      )}]`;
+      ]);
       const folder = `${dlqMessage.messageType}/${new Date()
         .toISOString()
         .substring(0, 10)}`;
-      const fileName = `${folder}/message-${millis}-${idx}.json`;
-
-      logger.debug(`Uploading to ${fileName}`);
-
-      return uploadToS3(bucketName, body, fileName);
+      fileName = `${folder}/message-${millis}-${idx}.json`;
     } catch (error) {
       logException(logger, error);
 
       return Promise.resolve();
     }
+
+    logger.debug(`Uploading to ${fileName}`);
+
+    return uploadToS3(bucketName, body, fileName);
   });
 
-  await Promise.allSettled(uploads);
+  // fail the batch if an upload failed, otherwise its message is lost
+  await Promise.all(uploads);
 };
diff --git a/rail/rami/src/util/s3.ts b/rail/rami/src/util/s3.ts
index ba1af78..d25692b 100644
--- a/rail/rami/src/util/s3.ts
+++ b/rail/rami/src/util/s3.ts
@@ -17,11 +17,12 @@ export async function uploadToS3(
     });
     try {
       await doUpload(s3, bucketName, body, objectName);
-    } catch (_error2) {
+    } catch (error) {
       logger.error({
         method: "RAMI-ProcessDLQ.uploadToS3",
         message: `upload failed, retrying upload to bucket ${bucketName}`,
       });
+      throw error;
     }
   }
 }
-- 
2.43.0


From 64f5e258dad6c62a76fa91aba3dc839310045d6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:32:01 +0000
Subject: [PATCH 37/47] fix: a failed OpenSearch request is seen and retried

---
 other/os-key-figures/src/api/opensearch.ts | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/other/os-key-figures/src/api/opensearch.ts b/other/os-key-figures/src/api/opensearch.ts
index 9ebf4f2..f214c70 100644
--- a/other/os-key-figures/src/api/opensearch.ts
+++ b/other/os-key-figures/src/api/opensearch.ts
@@ -55,9 +55,8 @@ export class OpenSearch {
     const client = new NodeHttpHandler();
 
     const makeRequest = async (): Promise<OpenSearchResponse> => {
-      // biome-ignore lint/suspicious/noAsyncPromiseExecutor: fix later
-      return new Promise(async (resolve, reject) => {
-        const { response } = await client.handle(signedRequest);
+      const { response } = await client.handle(signedRequest);
+      return new Promise((resolve, reject) => {
         this.handleResponseFromOs(
           response,
           (result) => {
-- 
2.43.0


From 2bae445c4092c2e439d06a5bc8e07b8b5078bcba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:35:23 +0000
Subject: [PATCH 38/47] fix: a response that breaks off fails its canary step
 instead of hanging it

---
 lib/digitraffic-common/src/aws/infra/canaries/url-checker.ts | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lib/digitraffic-common/src/aws/infra/canaries/url-checker.ts b/lib/digitraffic-common/src/aws/infra/canaries/url-checker.ts
index 1a98e38..f28877e 100644
--- a/lib/digitraffic-common/src/aws/infra/canaries/url-checker.ts
+++ b/lib/digitraffic-common/src/aws/infra/canaries/url-checker.ts
@@ -195,7 +195,7 @@ async function getResponseBody(response: IncomingMessage): Promise<string> {
 }
 
 function getBodyFromResponse(response: IncomingMessage): Promise<Buffer> {
-  return new Promise((resolve: (value: Buffer) => void) => {
+  return new Promise((resolve: (value: Buffer) => void, reject) => {
     const buffers: Buffer[] = [];
 
     response.on("data", (data: Buffer) => {
@@ -205,6 +205,8 @@ function getBodyFromResponse(response: IncomingMessage): Promise<Buffer> {
     response.on("end", () => {
       resolve(Buffer.concat(buffers));
     });
+
+    response.on("error", reject);
   });
 }
 
-- 
2.43.0


From a9f095d359a74ed70de6eab183cd299a42441572 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:35:23 +0000
Subject: [PATCH 39/47] fix: a first login or a failing one is answered

---
 .../src/lambda/authorizer/cognito_backend.ts          | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/marine/marinecam/src/lambda/authorizer/cognito_backend.ts b/marine/marinecam/src/lambda/authorizer/cognito_backend.ts
index a3c865b..0597ff0 100644
--- a/marine/marinecam/src/lambda/authorizer/cognito_backend.ts
+++ b/marine/marinecam/src/lambda/authorizer/cognito_backend.ts
@@ -53,7 +53,7 @@ export function loginUser(
         },
 
         newPasswordRequired: (userAttributes: object) => {
-          return changeUserPassword(cognitoUser, password, userAttributes);
+          changeUserPassword(cognitoUser, password, userAttributes, resolve);
         },
       });
     } catch (error) {
@@ -62,6 +62,8 @@ export function loginUser(
         message: "authenticateUser failed",
         customDetails: JSON.stringify(error),
       });
+
+      resolve(undefined);
     }
   });
 }
@@ -70,14 +72,17 @@ function changeUserPassword(
   cognitoUser: CognitoUser,
   newPassword: string,
   userAttributes: object,
+  resolve: (session: CognitoUserSession | undefined) => void,
 ): void {
   cognitoUser.completeNewPasswordChallenge(newPassword, userAttributes, {
-    onSuccess: (result) => {
+    onSuccess: (result: CognitoUserSession) => {
       logger.info({
         method: "CognitoBackend.changeUserPassword",
         message: "success",
         customDetails: JSON.stringify(result),
       });
+
+      resolve(result);
     },
     onFailure: (result) => {
       logger.info({
@@ -85,6 +90,8 @@ function changeUserPassword(
         message: "failure",
         customDetails: JSON.stringify(result),
       });
+
+      resolve(undefined);
     },
   });
 }
-- 
2.43.0


From a8d99305c9e5436c56d67ed605b859f48d7cd5a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:35:23 +0000
Subject: [PATCH 40/47] fix: a failed pilotage request rejects

---
 marine/portactivity/src/api/pilotweb.ts | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/marine/portactivity/src/api/pilotweb.ts b/marine/portactivity/src/api/pilotweb.ts
index 484a8c3..3a08abe 100644
--- a/marine/portactivity/src/api/pilotweb.ts
+++ b/marine/portactivity/src/api/pilotweb.ts
@@ -33,6 +33,9 @@ export function getMessages(host: string, authHeader: string): Promise<string> {
           });
         },
       )
+      .on("error", (error) => {
+        reject(error);
+      })
       .end();
   });
 }
-- 
2.43.0


From 99c8377e9a0a8e99db16add1e9d6d1937e8198c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:35:23 +0000
Subject: [PATCH 41/47] fix: a response that breaks off is not waited for
 forever

---
 other/opensearch-monitors/src/api/opensearch.ts | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/other/opensearch-monitors/src/api/opensearch.ts b/other/opensearch-monitors/src/api/opensearch.ts
index 45d58e0..4efbcc4 100644
--- a/other/opensearch-monitors/src/api/opensearch.ts
+++ b/other/opensearch-monitors/src/api/opensearch.ts
@@ -112,7 +112,7 @@ export class OpenSearch {
     }
 
     let responseBody = "";
-    await new Promise((resolve) => {
+    await new Promise((resolve, reject) => {
       response.body.on("data", (chunk: string) => {
         responseBody += chunk;
       });
@@ -120,6 +120,8 @@ export class OpenSearch {
       response.body.on("end", () => {
         resolve(responseBody);
       });
+
+      response.body.on("error", reject);
     }).catch((error) => {
       logException(logger, error);
 
-- 
2.43.0


From e518d1a88eb12f86b9cb35815160a8ea7477aa37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:35:23 +0000
Subject: [PATCH 42/47] fix: an OpenSearch response that breaks off or cannot
 be parsed is a failure

---
 other/os-key-figures/src/api/opensearch.ts | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/other/os-key-figures/src/api/opensearch.ts b/other/os-key-figures/src/api/opensearch.ts
index f214c70..a3f830b 100644
--- a/other/os-key-figures/src/api/opensearch.ts
+++ b/other/os-key-figures/src/api/opensearch.ts
@@ -109,8 +109,12 @@ export class OpenSearch {
           message: `Failed to parse response body: ${responseBody}`,
           method: "os-query.handleResponseFromOs",
         });
+        failedCallback(statusCode, "Failed to parse response body");
       }
     });
+    response.body.on("error", (error: Error) => {
+      failedCallback(statusCode, error.message);
+    });
   }
 
   async signOsRequest(
-- 
2.43.0


From 0a6597dedb95dcd0e3a4bc47cfb5e830c5ee27d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:57:08 +0000
Subject: [PATCH 43/47] fix: a stop monitoring message that could not be
 handled goes back to its queue

---
 rail/rami/src/lambda/process-sm-queue/process-sm-queue.ts | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/rail/rami/src/lambda/process-sm-queue/process-sm-queue.ts b/rail/rami/src/lambda/process-sm-queue/process-sm-queue.ts
index cd01bbd..7758ef3 100644
--- a/rail/rami/src/lambda/process-sm-queue/process-sm-queue.ts
+++ b/rail/rami/src/lambda/process-sm-queue/process-sm-queue.ts
@@ -69,6 +69,8 @@ export function handlerFn(): (
             return Promise.resolve();
           } catch (error) {
             logException(logger, error);
+
+            return Promise.reject(error);
           }
         }),
       );
-- 
2.43.0


From 7075d20531d817d2001f38494b8b7f47c0f91a84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:14:30 +0000
Subject: [PATCH 44/47] fix: url canary header checks find a header however its
 name is cased

---
 lib/digitraffic-common/src/aws/infra/canaries/url-checker.ts | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/digitraffic-common/src/aws/infra/canaries/url-checker.ts b/lib/digitraffic-common/src/aws/infra/canaries/url-checker.ts
index f28877e..0691202 100644
--- a/lib/digitraffic-common/src/aws/infra/canaries/url-checker.ts
+++ b/lib/digitraffic-common/src/aws/infra/canaries/url-checker.ts
@@ -372,7 +372,7 @@ export const GeoJsonChecker = {
 export const HeaderChecker = {
   checkHeaderExists(headerName: string): CheckerFunction {
     return (res: IncomingMessage) => {
-      if (!res.headers[headerName]) {
+      if (!res.headers[headerName.toLowerCase()]) {
         throw new Error(`Missing header: ${headerName}`);
       }
 
@@ -382,7 +382,7 @@ export const HeaderChecker = {
 
   checkHeaderMissing(headerName: string): CheckerFunction {
     return (res: IncomingMessage) => {
-      if (res.headers[headerName]) {
+      if (res.headers[headerName.toLowerCase()]) {
         throw new Error(`Header should not exist: ${headerName}`);
       }
 
-- 
2.43.0


From 420875538830ba95162ab0b2a77c5433ab5d791b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:59:53 +0000
Subject: [PATCH 45/47] fix: marinecam moves the update time of a camera only
 after its image is stored

---
 marine/marinecam/src/service/image-fetcher.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/marine/marinecam/src/service/image-fetcher.ts b/marine/marinecam/src/service/image-fetcher.ts
index 705869e..a6f056c 100644
--- a/marine/marinecam/src/service/image-fetcher.ts
+++ b/marine/marinecam/src/service/image-fetcher.ts
@@ -49,8 +49,8 @@ async function updateAllImages(
             message: `empty picture from camera ${cameraId}`,
           });
         } else {
+          await ImageStore.storeImage(cameraId, image, bucketName);
           updatedCameras.push(cameraId);
-          return ImageStore.storeImage(cameraId, image, bucketName);
         }
 
         return Promise.resolve();
-- 
2.43.0


From b7b1fff74525eac2ee1f8b5ed8edcea05b4bdb0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:04:33 +0000
Subject: [PATCH 46/47] fix: a location of a port suspension that comes back
 after its deletion is saved again

---
 marine/winter-navigation/src/db/port-suspensions.ts | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/marine/winter-navigation/src/db/port-suspensions.ts b/marine/winter-navigation/src/db/port-suspensions.ts
index 535f8ae..a5d219a 100644
--- a/marine/winter-navigation/src/db/port-suspensions.ts
+++ b/marine/winter-navigation/src/db/port-suspensions.ts
@@ -24,7 +24,11 @@ const SQL_UPDATE_SUSPENSION_LOCATIONS = `
 insert into wn_port_suspension_location(id, suspension_id, location_id, deleted)
 values ($1, $2, $3, false)
 on conflict(id)
-do nothing`;
+do update set
+    suspension_id = $2,
+    location_id = $3,
+    deleted = false
+`;
 
 const PS_UPDATE_SUSPENSIONS = new pgPromise.PreparedStatement({
   name: "update-suspensions",
-- 
2.43.0


From 42587ee0cbc1f55269f94aa9be0515656a81253a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:18:56 +0000
Subject: [PATCH 47/47] fix: a deleted vessel is not given out by the
 single-vessel query

---
 marine/winter-navigation/src/db/vessels.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/marine/winter-navigation/src/db/vessels.ts b/marine/winter-navigation/src/db/vessels.ts
index d24d8c2..f889994 100644
--- a/marine/winter-navigation/src/db/vessels.ts
+++ b/marine/winter-navigation/src/db/vessels.ts
@@ -21,7 +21,7 @@ do update set
 
 const SQL_GET_VESSEL = `
 WITH target_vessel AS (
-  SELECT id FROM wn_vessel WHERE imo = $3 OR mmsi = $3
+  SELECT id FROM wn_vessel WHERE (imo = $3 OR mmsi = $3) AND deleted = false
 ),
 all_queue_relations AS (
     -- Get queues where the target vessel is the one being assisted
-- 
2.43.0

