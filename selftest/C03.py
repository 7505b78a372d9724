F = "src/engine/Server.cpp"
S = "src/util/Socket.h"
BUGS = [
    ("no catch in loop", F, """    try {
      process(&client);
    } catch (const std::exception& e) {
      // An exception that leaves this function would terminate the server.
      LOG(ERROR) << "Failed to process a request: " << e.what() << std::endl;
    } catch (...) {
      LOG(ERROR) << "Failed to process a request" << std::endl;
    }
    client.close();""", "    process(&client);\n    client.close();"),
    ("close only on success", F, "    } catch (...) {\n      LOG(ERROR) << \"Failed to process a request\" << std::endl;\n    }\n    client.close();", "      continue;\n    } catch (...) {\n      LOG(ERROR) << \"Failed to process a request\" << std::endl;\n    }\n    client.close();"),
    ("return on accept error", F, "                 << std::endl;\n      continue;", "                 << std::endl;\n      return;"),
    ("narrow catch", F, "    } catch (const std::exception& e) {\n      response = ", "    } catch (const ad_semsearch::Exception& e) {\n      response = "),
    ("parse outside try", F, "    try {\n      ParamValueMap params = parseHttpRequest(request);\n", "    ParamValueMap params = parseHttpRequest(request);\n    try {\n"),
    ("strict dump", F, "j.dump(4, ' ', false, json::error_handler_t::replace)", "j.dump(4)"),
    ("swallow", F, "      response = composeResponseJson(query, e, requestTimer);\n", "      LOG(ERROR) << e.what() << std::endl;\n"),
    ("missing return after stats", F, "        LOG(INFO) << \"Sent stats to client.\" << std::endl;\n        return;\n", "        LOG(INFO) << \"Sent stats to client.\" << std::endl;\n"),
    ("no 404 answer", F, "        auto bytesSent = client->send(create404HttpResponse());\n        LOG(DEBUG) << \"Sent \" << bytesSent << \" bytes.\" << std::endl;\n        return;", "        return;"),
    ("double close", F, "  client->send(data);\n}", "  client->send(data);\n  client->close();\n}"),
    ("exit on bad alloc", F, "      response = composeResponseJson(query, e, requestTimer);\n", "      response = composeResponseJson(query, e, requestTimer);\n      if (response.empty()) exit(1);\n"),
    ("recv zero", S, "      if (rv == 0) {\n        break;\n      }", "      if (rv == 0) {\n        continue;\n      }"),
    ("recv error", S, "                    << std::endl;\n          break;", "                    << std::endl;"),
    ("recv zero not tested", S, "      if (rv == 0) {\n        break;\n      }\n", ""),
    ("throwing dtor", "src/engine/QueryExecutionContext.h", "class QueryExecutionContext {\n public:", "class QueryExecutionContext {\n public:\n  ~QueryExecutionContext() { AD_CHECK(_cost_factors.getCostFactor(\"x\") > 0); }"),
]
SAFE = [
    ("close in try (ok)", F, "      process(&client);\n", "      process(&client);\n      client.close();\n      continue;\n"),
    ("helper", [(F, "    try {\n      process(&client);\n", "    try {\n      handleClient(client);\n"),
                (F, "// _____________________________________________________________________________\nvoid Server::process(", "void Server::handleClient(Socket& client) { process(&client); }\n\n// ___\nvoid Server::process("),
                ("src/engine/Server.h", "  void process(Socket* client);", "  void process(Socket* client);\n  void handleClient(Socket& client);")]),
    ("close in both", F, "    } catch (...) {\n      LOG(ERROR) << \"Failed to process a request\" << std::endl;\n    }\n    client.close();", "      client.close();\n      continue;\n    } catch (...) {\n      LOG(ERROR) << \"Failed to process a request\" << std::endl;\n    }\n    client.close();"),
    ("invert accept test", F, "    bool success = _serverSocket.acceptClient(&client);\n    if (!success) {", "    if (!_serverSocket.acceptClient(&client)) {"),
    ("recv le", S, "      if (rv == 0) {\n        break;\n      }\n      if (rv == -1) {", "      if (!rv) break;\n      if (rv < 0) {"),
    ("send helper", [(F, "        auto bytesSent = client->send(create404HttpResponse());\n        LOG(DEBUG) << \"Sent \" << bytesSent << \" bytes.\" << std::endl;\n        return;", "        sendTo(client, create404HttpResponse());\n        return;"),
                     (F, "// _____________________________________________________________________________\nvoid Server::process(", "static void sendTo(Socket* c, const string& r) {\n  auto n = c->send(r);\n  LOG(DEBUG) << n << std::endl;\n}\n\n// ___\nvoid Server::process(")]),
    ("message variable", F, "      response = composeResponseJson(query, e, requestTimer);\n", "      const std::exception& err = e;\n      string text = composeResponseJson(query, err, requestTimer);\n      response = std::move(text);\n"),
]
