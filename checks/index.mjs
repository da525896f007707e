import { database } from "./database.mjs";
import { secrets } from "./secrets.mjs";
import { logging } from "./logging.mjs";
import { resilience } from "./resilience.mjs";
import { responses } from "./responses.mjs";
import { canaries } from "./canaries.mjs";
import { infra } from "./infra.mjs";
import { acl } from "./acl.mjs";
import { functions } from "./functions.mjs";
import { queues } from "./queues.mjs";
import { restapi } from "./restapi.mjs";
import { stacks } from "./stacks.mjs";
import { watch } from "./watch.mjs";
import { appsDb } from "./apps-db.mjs";
import { appsMysql } from "./apps-mysql.mjs";
import { appsAsync } from "./apps-async.mjs";
import { utils } from "./utils.mjs";
import { helpers } from "./helpers.mjs";
import { statik } from "./static.mjs";
import { appsDeploy } from "./apps-deploy.mjs";
import { columns } from "./columns.mjs";
import { reads } from "./reads.mjs";
import { marks } from "./marks.mjs";
import { lists } from "./nonempty.mjs";
import { appsAccess } from "./apps-access.mjs";
export const CHECKS = { ...reads, ...columns, ...marks, ...lists, ...appsDeploy, ...appsAccess, ...statik, ...helpers, ...utils, ...appsAsync, ...appsMysql, ...appsDb, ...database, ...secrets, ...logging, ...resilience, ...responses, ...canaries, ...infra, ...acl, ...functions, ...queues, ...restapi, ...stacks, ...watch };
